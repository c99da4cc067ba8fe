From fde6e4ecc42adfb95da2b997d63c066d19307779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:08 +0000
Subject: [PATCH 01/24] fix: r2d_rotate wrote the rotated y coordinate into x

---
 src/r2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 63936f8..37e35e9 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -426,7 +426,7 @@ void r2d_rotate(r2d_poly* poly, r2d_real theta) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		poly->verts[v].pos.x = cosine*tmp.x - sine*tmp.y; 
-		poly->verts[v].pos.x = sine*tmp.x + cosine*tmp.y; 
+		poly->verts[v].pos.y = sine*tmp.x + cosine*tmp.y; 
 	}
 }
 
-- 
2.43.0


From 9961af72427cd841998b1c2783e2f494fa5d27bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:08 +0000
Subject: [PATCH 02/24] fix: r2d_box_faces_from_verts had the wrong sign on the
 lower-bound planes

---
 src/r2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 37e35e9..02efe1a 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -517,8 +517,8 @@ void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 
 
 void r2d_box_faces_from_verts(r2d_plane* faces, r2d_rvec2* rbounds) {
-	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = rbounds[0].y; 
-	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = rbounds[0].x; 
+	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = -rbounds[0].y; 
+	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = -rbounds[0].x; 
 	faces[2].n.x = 0.0; faces[2].n.y = -1.0; faces[2].d = rbounds[1].y; 
 	faces[3].n.x = -1.0; faces[3].n.y = 0.0; faces[3].d = rbounds[1].x; 
 }
-- 
2.43.0


From 35c9c1e5e3a571f79ab2c947be4d6e39e8e75849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:08 +0000
Subject: [PATCH 03/24] fix: r2d_split returned the positive and negative
 fragments swapped

---
 src/r2d.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 02efe1a..55d6301 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -151,7 +151,6 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 		memset(&side, 0, sizeof(side));
 		for(v = 0; v < *nverts; ++v) {
 			sdists[v] = plane.d + dot(vertbuffer[v].pos, plane.n);
-			sdists[v] *= -1;
 			if(sdists[v] < 0.0) {
 				side[v] = 1;
 				nright++;
-- 
2.43.0


From 29543de6f83bb61a3511b275784f95af00f4665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:08 +0000
Subject: [PATCH 04/24] fix: rNd_affine kept only the last matrix column and
 ignored the homogeneous offset

---
 src/rNd.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index e16c071..b993a57 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -488,13 +488,13 @@ void rNd_affine(rNd_poly* poly, rNd_real mat[RND_DIM+1][RND_DIM+1]) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		// affine transformation
-		for(i = 0; i < RND_DIM; ++i)
-		for(j = 0; j < RND_DIM; ++j)
-			poly->verts[v].pos.xyz[i] = tmp.xyz[j]*mat[i][j];
-		for(i = 0; i < RND_DIM; ++i)
-			poly->verts[v].pos.xyz[i] += mat[i][RND_DIM];
+		for(i = 0; i < RND_DIM; ++i) {
+			poly->verts[v].pos.xyz[i] = mat[i][RND_DIM];
+			for(j = 0; j < RND_DIM; ++j)
+				poly->verts[v].pos.xyz[i] += tmp.xyz[j]*mat[i][j];
+		}
 		// homogeneous divide if w != 1, i.e. in a perspective projection
-		w = 0.0;
+		w = mat[RND_DIM][RND_DIM];
 		for(j = 0; j < RND_DIM; ++j)
 			w += tmp.xyz[j]*mat[RND_DIM][j];
 		for(i = 0; i < RND_DIM; ++i)
-- 
2.43.0


From f3940a2b87890403fcc13936e51d54a92ac3fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:08 +0000
Subject: [PATCH 05/24] fix: rNd_clamp_ibox overran its plane array when more
 than six sides are clamped

---
 src/vNd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vNd.c b/src/vNd.c
index 1f8e572..39693f9 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -266,7 +266,7 @@ void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
 
 void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
 	rNd_int i, nboxclip;
-	rNd_plane boxfaces[6];
+	rNd_plane boxfaces[2*RND_DIM];
 	nboxclip = 0;
 	memset(boxfaces, 0, sizeof(boxfaces));
 	for(i = 0; i < RND_DIM; ++i) {
-- 
2.43.0


From 4284c088a5a78bf1213deba6abb853e4669819a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:08 +0000
Subject: [PATCH 06/24] fix: r3d_is_good overran its stack, indexed out of
 bounds and accepted self-pointing vertices

---
 src/r3d.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index bb4abfd..8070cd8 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -496,10 +496,14 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 				printf("Double edge.\n");
 				return 0;
 			}
-			if (vertbuffer[v].pnbrs[np] >= *nverts) {
+			if (vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
+			if (vertbuffer[v].pnbrs[np] == v) {
+				printf("Self-pointing vertex.\n");
+				return 0;
+			}
 		}
 
 		vct[vertbuffer[v].pnbrs[0]]++;
@@ -524,15 +528,17 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 	memset(&regions, 0, sizeof(regions));
 	for (v = 0; v < *nverts; ++v) {
 		if (regions[v]) continue;
+		// mark verts as they are pushed, so each is on the stack at most once
 		nvstack = 0;
+		regions[v] = rcur;
 		stack[nvstack++] = v;
 		while (nvstack > 0) {
 			vc = stack[--nvstack];
-			if (regions[vc]) continue;
-			regions[vc] = rcur;
-			stack[nvstack++] = vertbuffer[vc].pnbrs[0];
-			stack[nvstack++] = vertbuffer[vc].pnbrs[1];
-			stack[nvstack++] = vertbuffer[vc].pnbrs[2];
+			for (np = 0; np < 3; ++np) {
+				if (regions[vertbuffer[vc].pnbrs[np]]) continue;
+				regions[vertbuffer[vc].pnbrs[np]] = rcur;
+				stack[nvstack++] = vertbuffer[vc].pnbrs[np];
+			}
 		}
 		++rcur;
 	}
@@ -557,14 +563,15 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 			// flood-fill from vc to make sure the graph is still connected when va
 			// and vb are masked
 			nvstack = 0;
+			vct[vc] = 1;
 			stack[nvstack++] = vc;
 			while (nvstack > 0) {
 				vc = stack[--nvstack];
-				if (vct[vc]) continue;
-				vct[vc] = 1;
-				stack[nvstack++] = vertbuffer[vc].pnbrs[0];
-				stack[nvstack++] = vertbuffer[vc].pnbrs[1];
-				stack[nvstack++] = vertbuffer[vc].pnbrs[2];
+				for (np = 0; np < 3; ++np) {
+					if (vct[vertbuffer[vc].pnbrs[np]]) continue;
+					vct[vertbuffer[vc].pnbrs[np]] = 1;
+					stack[nvstack++] = vertbuffer[vc].pnbrs[np];
+				}
 			}
 
 			// if any verts in the region rcur were untouched, the graph is only
-- 
2.43.0


From a981d7ad019fc495e3fae5ec9cadd150c63b51b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:08 +0000
Subject: [PATCH 07/24] fix: rNd_is_good overran its stack and indexed with
 negative neighbours

---
 src/rNd.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index b993a57..9c824d5 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -342,7 +342,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 				return 0;
 			}
 			// return if any edges are obviously invalid
-			if(vertbuffer[v].pnbrs[np] >= *nverts) {
+			if(vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
@@ -375,14 +375,17 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 	memset(&regions, 0, sizeof(regions));
 	for(v = 0; v < *nverts; ++v) {
 		if(regions[v]) continue;
+		// mark verts as they are pushed, so each is on the stack at most once
 		nvstack = 0;
+		regions[v] = rcur;
 		stack[nvstack++] = v;
 		while(nvstack > 0) {
 			vc = stack[--nvstack];
-			if(regions[vc]) continue;
-			regions[vc] = rcur;
-			for(np = 0; np < RND_DIM; ++np)
+			for(np = 0; np < RND_DIM; ++np) {
+				if(regions[vertbuffer[vc].pnbrs[np]]) continue;
+				regions[vertbuffer[vc].pnbrs[np]] = rcur;
 				stack[nvstack++] = vertbuffer[vc].pnbrs[np];
+			}
 		}
 		++rcur;
 	}
@@ -419,13 +422,15 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 		// flood-fill from vc to make sure the graph is 
 		// still connected when va and vb are masked
 		nvstack = 0;
+		vct[vc] = 1;
 		stack[nvstack++] = vc;
 		while(nvstack > 0) {
 			vc = stack[--nvstack];
-			if(vct[vc]) continue;
-			vct[vc] = 1;
-			for(np = 0; np < RND_DIM; ++np)
+			for(np = 0; np < RND_DIM; ++np) {
+				if(vct[vertbuffer[vc].pnbrs[np]]) continue;
+				vct[vertbuffer[vc].pnbrs[np]] = 1;
 				stack[nvstack++] = vertbuffer[vc].pnbrs[np];
+			}
 		}
 
 		// if any verts in the region rcur were untouched, 
-- 
2.43.0


From 0a2fdb232efd17e333e8a57cef06d9c010dc94ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:08 +0000
Subject: [PATCH 08/24] fix: r2d_is_good accepted self-pointing vertices and
 indexed with negative neighbours

---
 src/r2d.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 55d6301..54a1515 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -403,8 +403,9 @@ r2d_int r2d_is_good(r2d_poly* poly) {
 		// return false if vertices share an edge with themselves 
 		// or if any edges are obviously invalid
 		if(vertbuffer[v].pnbrs[0] == vertbuffer[v].pnbrs[1]) return 0;
-		if(vertbuffer[v].pnbrs[0] >= *nverts) return 0;
-		if(vertbuffer[v].pnbrs[1] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[0] == v || vertbuffer[v].pnbrs[1] == v) return 0;
+		if(vertbuffer[v].pnbrs[0] < 0 || vertbuffer[v].pnbrs[0] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[1] < 0 || vertbuffer[v].pnbrs[1] >= *nverts) return 0;
 
 		vct[vertbuffer[v].pnbrs[0]]++;
 		vct[vertbuffer[v].pnbrs[1]]++;
-- 
2.43.0


From 6340da785fd938a61f9d6e338e126a0ab2522dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:08 +0000
Subject: [PATCH 09/24] fix: r3d_init_brep read out of bounds for empty and for
 completely full polyhedra

---
 src/r3d.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/r3d.c b/src/r3d.c
index 8070cd8..89b89e1 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1073,6 +1073,13 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 	r3d_int nc = 0, ncmax = 0, i, np, nv, nf, vstart, vcur, vnext, pedge, nvkept,
             numvertsincomponent, j;
 
+	// an empty polyhedron has no components
+	if (nverts <= 0) {
+		*numcomponents = 0;
+		*brep = NULL;
+		return;
+	}
+
 	// make the mapping of equivalent vertex indices
 	r3d_int vertex_map[nverts];
 	vertex_map[0] = 0;
@@ -1208,7 +1215,7 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 			vstart = nv;
 
 			// find an unwalked edge starting at the this vertex
-			for (np = 0; np < 3; np++) {
+			for (np = 0; nv < nverts && np < 3; np++) {
 				if (edge_marked[nv][np] == 0) {
 					break;
 				}
-- 
2.43.0


From c726b40d940d64e695c8235713aafa22a303bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:02 +0000
Subject: [PATCH 10/24] fix: r2d_clip, r2d_split and r2d_init_poly wrote past a
 full vertex buffer instead of reporting it

---
 src/r2d.c | 24 +++++++++++++++++++-----
 src/r2d.h | 15 ++++++++++++---
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 54a1515..540137a 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -37,7 +37,7 @@
 }
 
 
-void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
+r2d_int r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 
 	// variable declarations
 	r2d_int v, p, np, onv, vstart, vcur, vnext, numunclipped; 
@@ -45,7 +45,7 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 	// direct access to vertex buffer
 	r2d_vertex* vertbuffer = poly->verts; 
 	r2d_int* nverts = &poly->nverts; 
-	if(*nverts <= 0) return;
+	if(*nverts <= 0) return 1;
 
 	// signed distances to the clipping plane
 	r2d_real sdists[R2D_MAX_VERTS];
@@ -73,7 +73,7 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 		if(smin >= 0.0) continue;
 		if(smax <= 0.0) {
 			*nverts = 0;
-			return;
+			return 1;
 		}
 
 		// check all edges and insert new vertices on the bisected edges 
@@ -82,6 +82,7 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 			for(np = 0; np < 2; ++np) {
 				vnext = vertbuffer[vcur].pnbrs[np];
 				if(!clipped[vnext]) continue;
+				if(*nverts == R2D_MAX_VERTS) return 0;
 				vertbuffer[*nverts].pnbrs[1-np] = vcur;
 				vertbuffer[*nverts].pnbrs[np] = -1;
 				vertbuffer[vcur].pnbrs[np] = *nverts;
@@ -119,9 +120,11 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 			vertbuffer[v].pnbrs[1] = clipped[vertbuffer[v].pnbrs[1]];
 		}	
 	}
+
+	return 1;
 }
 
-void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg) {
+r2d_int r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg) {
 
 	// direct access to vertex buffer
 	r2d_int* nverts;
@@ -176,6 +179,7 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 			for(np = 0; np < 2; ++np) {
 				vnext = vertbuffer[vcur].pnbrs[np];
 				if(!side[vnext]) continue;
+				if(*nverts + 2 > R2D_MAX_VERTS) return 0;
 				wav(vertbuffer[vcur].pos, -sdists[vnext],
 					vertbuffer[vnext].pos, sdists[vcur],
 					newpos);
@@ -223,6 +227,8 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 			for(np = 0; np < 2; ++np)
 				outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
 	}
+
+	return 1;
 }
 
 void r2d_reduce(r2d_poly* poly, r2d_real* moments, r2d_int polyorder) {
@@ -499,12 +505,18 @@ void r2d_init_box(r2d_poly* poly, r2d_rvec2 rbounds[2]) {
 }
 
 
-void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
+r2d_int r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 
 	// direct access to vertex buffer
 	r2d_vertex* vertbuffer = poly->verts; 
 	r2d_int* nverts = &poly->nverts; 
 
+	// refuse polygons that do not fit
+	if(numverts > R2D_MAX_VERTS) {
+		*nverts = 0;
+		return 0;
+	}
+
 	// init the poly
 	*nverts = numverts;
 	r2d_int v;
@@ -513,6 +525,8 @@ void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 		vertbuffer[v].pnbrs[0] = (v+1)%(*nverts);
 		vertbuffer[v].pnbrs[1] = (*nverts+v-1)%(*nverts);
 	}
+
+	return 1;
 }
 
 
diff --git a/src/r2d.h b/src/r2d.h
index 5fc57d4..4dfb2fb 100644
--- a/src/r2d.h
+++ b/src/r2d.h
@@ -111,8 +111,11 @@ typedef struct {
  * \param[in] nplanes 
  * The number of planes in the input array. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - the vertex buffer
+ * is too small)
+ *
  */
-void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes);
+r2d_int r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes);
 
 /**
  * \brief Splits a list of polygons across a single plane.  
@@ -136,8 +139,11 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes);
  * The output array of fragments on the negitive side of the clip plane. Must be at least npolys
  * long. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - the vertex buffer
+ * is too small)
+ *
  */
-void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg);
+r2d_int r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg);
 
 /**
  * \brief Integrate a polynomial density over a polygon using simplicial decomposition.
@@ -314,8 +320,11 @@ void r2d_init_box(r2d_poly* poly, r2d_rvec2* rbounds);
  * \param [in] numverts
  * Number of vertices in the input polygon. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - the vertex buffer
+ * is too small)
+ *
  */
-void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts);
+r2d_int r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts);
 
 /**
  * \brief Get four faces (unit normals and distances to the origin)
-- 
2.43.0


From ebc7b9aad4cc7017a85418f185441fd6c5e5be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:02 +0000
Subject: [PATCH 11/24] fix: r2d_rasterize wrote past a full vertex buffer, and
 r2d_clamp_ibox hid a failed clip

---
 src/v2d.c | 28 +++++++++++++++++-----------
 src/v2d.h | 10 ++++++++--
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/v2d.c b/src/v2d.c
index 9d98ca5..068ad76 100644
--- a/src/v2d.c
+++ b/src/v2d.c
@@ -53,9 +53,9 @@
 }
 
 // TODO: make this a generic "split" routine that just takes a plane.
-void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax);
+r2d_int r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax);
 
-void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder) {
+r2d_int r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder) {
 
 	r2d_int i, m, spax, dmax, nstack, siz;
 	r2d_int nmom = R2D_NUM_MOMENTS(polyorder);
@@ -66,7 +66,7 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 	// return if any parameters are bad 
 	for(i = 0; i < 2; ++i) gridsz.ij[i] = ibox[1].ij[i]-ibox[0].ij[i];	
 	if(!poly || poly->nverts <= 0 || !dest_grid || 
-			gridsz.i <= 0 || gridsz.j <= 0) return;
+			gridsz.i <= 0 || gridsz.j <= 0) return 1;
 	
 	// explicit stack-based implementation
 	// stack size should never overflow in this implementation, 
@@ -113,7 +113,7 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 		// split the poly and push children to the stack
 		children[0] = &stack[nstack].poly;
 		children[1] = &stack[nstack+1].poly;
-		r2d_split_coord(&stack[nstack].poly, children, d.xy[spax]*(stack[nstack].ibox[0].ij[spax]+dmax/2), spax);
+		if(!r2d_split_coord(&stack[nstack].poly, children, d.xy[spax]*(stack[nstack].ibox[0].ij[spax]+dmax/2), spax)) return 0;
 		memcpy(stack[nstack+1].ibox, stack[nstack].ibox, 2*sizeof(r2d_dvec2));
 		//stack[nstack].ibox[0].ij[spax] += dmax/2;
 		//stack[nstack+1].ibox[1].ij[spax] -= dmax-dmax/2; 
@@ -123,12 +123,14 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 
 		nstack += 2;
 	}
+
+	return 1;
 }
 
-void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax) {
+r2d_int r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax) {
 
 	// direct access to vertex buffer
-	if(inpoly->nverts <= 0) return;
+	if(inpoly->nverts <= 0) return 1;
 	r2d_int* nverts = &inpoly->nverts;
 	r2d_vertex* vertbuffer = inpoly->verts; 
 	r2d_int v, np, onv, vcur, vnext, vstart, nright, cside;
@@ -151,12 +153,12 @@ void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_
 	if(nright == 0) {
 		*(outpolys[0]) = *inpoly;
 		outpolys[1]->nverts = 0;
-		return;
+		return 1;
 	}
 	if(nright == *nverts) {
 		*(outpolys[1]) = *inpoly;
 		outpolys[0]->nverts = 0;
-		return;
+		return 1;
 	}
 
 	// check all edges and insert new vertices on the bisected edges 
@@ -166,6 +168,7 @@ void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_
 		for(np = 0; np < 2; ++np) {
 			vnext = vertbuffer[vcur].pnbrs[np];
 			if(!side[vnext]) continue;
+			if(*nverts + 2 > R2D_MAX_VERTS) return 0;
 			wav(vertbuffer[vcur].pos, -sdists[vnext],
 				vertbuffer[vnext].pos, sdists[vcur],
 				newpos);
@@ -212,6 +215,8 @@ void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_
 	for(v = 0; v < outpolys[1]->nverts; ++v) 
 		for(np = 0; np < 2; ++np)
 			outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
+
+	return 1;
 }
 
 void r2d_get_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_rvec2 d) {
@@ -233,7 +238,7 @@ void r2d_get_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_rvec2 d) {
 	}
 }
 
-void r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2d_rvec2 d) {
+r2d_int r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2d_rvec2 d) {
 	r2d_int i, nboxclip;
 	r2d_plane boxfaces[4];
 	nboxclip = 0;
@@ -242,7 +247,7 @@ void r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2
 		if(ibox[1].ij[i] <= clampbox[0].ij[i] || ibox[0].ij[i] >= clampbox[1].ij[i]) {
 			memset(ibox, 0, 2*sizeof(r2d_dvec2));
 			poly->nverts = 0;
-			return;
+			return 1;
 		}
 		if(ibox[0].ij[i] < clampbox[0].ij[i]) {
 			ibox[0].ij[i] = clampbox[0].ij[i];
@@ -257,5 +262,6 @@ void r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2
 			nboxclip++;
 		}	
 	}
-	if(nboxclip) r2d_clip(poly, boxfaces, nboxclip);
+	if(nboxclip) return r2d_clip(poly, boxfaces, nboxclip);
+	return 1;
 }
diff --git a/src/v2d.h b/src/v2d.h
index 3eb036c..bddc8e4 100644
--- a/src/v2d.h
+++ b/src/v2d.h
@@ -81,8 +81,11 @@ extern "C" {
  * Order of the polynomial density field to rasterize. 
  * 0 for constant (1 moment), 1 for linear (3 moments), 2 for quadratic (6 moments), etc.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - the vertex buffer
+ * is too small)
+ *
  */
-void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder);
+r2d_int r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder);
 
 /**
  * \brief Get the minimal box of grid indices for a polygon, given a grid cell spacing,
@@ -100,8 +103,11 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
  * \param [in] d 
  * The cell spacing of the grid. The origin of the grid is assumed to lie at the origin in space.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - the vertex buffer
+ * is too small)
+ *
  */
-void r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2d_rvec2 d);
+r2d_int r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2d_rvec2 d);
 
 /**
  * \brief Get the minimal box of grid indices for a polygon, given a grid cell spacing.
-- 
2.43.0


From cb77f4c0d5cfb56264148ad46df107f21fb0a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:02 +0000
Subject: [PATCH 12/24] fix: r3d_voxelize wrote past a full vertex buffer, and
 r3d_clamp_ibox hid a failed clip

---
 src/v3d.c | 28 +++++++++++++++++-----------
 src/v3d.h | 10 ++++++++--
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/v3d.c b/src/v3d.c
index 7e6bcb1..4d01128 100644
--- a/src/v3d.c
+++ b/src/v3d.c
@@ -54,9 +54,9 @@
 }
 
 // TODO: make this a generic "split" routine that just takes a plane.
-void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax);
+r3d_int r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax);
 
-void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder) {
+r3d_int r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder) {
 
 	r3d_int i, m, spax, dmax, nstack, siz;
 	r3d_int nmom = R3D_NUM_MOMENTS(polyorder);
@@ -67,7 +67,7 @@ void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rv
 	// return if any parameters are bad 
 	for(i = 0; i < 3; ++i) gridsz.ijk[i] = ibox[1].ijk[i]-ibox[0].ijk[i];	
 	if(!poly || poly->nverts <= 0 || !dest_grid || 
-			gridsz.i <= 0 || gridsz.j <= 0 || gridsz.k <= 0) return;
+			gridsz.i <= 0 || gridsz.j <= 0 || gridsz.k <= 0) return 1;
 	
 	// explicit stack-based implementation
 	// stack size should never overflow in this implementation, 
@@ -115,18 +115,20 @@ void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rv
 		// split the poly and push children to the stack
 		children[0] = &stack[nstack].poly;
 		children[1] = &stack[nstack+1].poly;
-		r3d_split_coord(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax);
+		if(!r3d_split_coord(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax)) return 0;
 		memcpy(stack[nstack+1].ibox, stack[nstack].ibox, 2*sizeof(r3d_dvec3));
 		stack[nstack].ibox[1].ijk[spax] -= dmax-dmax/2; 
 		stack[nstack+1].ibox[0].ijk[spax] += dmax/2;
 		nstack += 2;
 	}
+
+	return 1;
 }
 
-void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax) {
+r3d_int r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax) {
 
 	// direct access to vertex buffer
-	if(inpoly->nverts <= 0) return;
+	if(inpoly->nverts <= 0) return 1;
 	r3d_int* nverts = &inpoly->nverts;
 	r3d_vertex* vertbuffer = inpoly->verts; 
 	r3d_int v, np, npnxt, onv, vcur, vnext, vstart, pnext, nright, cside;
@@ -149,12 +151,12 @@ void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_
 	if(nright == 0) {
 		*(outpolys[0]) = *inpoly;
 		outpolys[1]->nverts = 0;
-		return;
+		return 1;
 	}
 	if(nright == *nverts) {
 		*(outpolys[1]) = *inpoly;
 		outpolys[0]->nverts = 0;
-		return;
+		return 1;
 	}
 
 	// check all edges and insert new vertices on the bisected edges 
@@ -164,6 +166,7 @@ void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_
 		for(np = 0; np < 3; ++np) {
 			vnext = vertbuffer[vcur].pnbrs[np];
 			if(!side[vnext]) continue;
+			if(*nverts + 2 > R3D_MAX_VERTS) return 0;
 			wav(vertbuffer[vcur].pos, -sdists[vnext],
 				vertbuffer[vnext].pos, sdists[vcur],
 				newpos);
@@ -213,6 +216,8 @@ void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_
 	for(v = 0; v < outpolys[1]->nverts; ++v) 
 		for(np = 0; np < 3; ++np)
 			outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
+
+	return 1;
 }
 
 void r3d_get_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_rvec3 d) {
@@ -234,7 +239,7 @@ void r3d_get_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_rvec3 d) {
 	}
 }
 
-void r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3d_rvec3 d) {
+r3d_int r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3d_rvec3 d) {
 	r3d_int i, nboxclip;
 	r3d_plane boxfaces[6];
 	nboxclip = 0;
@@ -243,7 +248,7 @@ void r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3
 		if(ibox[1].ijk[i] <= clampbox[0].ijk[i] || ibox[0].ijk[i] >= clampbox[1].ijk[i]) {
 			memset(ibox, 0, 2*sizeof(r3d_dvec3));
 			poly->nverts = 0;
-			return;
+			return 1;
 		}
 		if(ibox[0].ijk[i] < clampbox[0].ijk[i]) {
 			ibox[0].ijk[i] = clampbox[0].ijk[i];
@@ -258,5 +263,6 @@ void r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3
 			nboxclip++;
 		}	
 	}
-	if(nboxclip) r3d_clip(poly, boxfaces, nboxclip);
+	if(nboxclip) return r3d_clip(poly, boxfaces, nboxclip);
+	return 1;
 }
diff --git a/src/v3d.h b/src/v3d.h
index 5dc8a1e..0f99e57 100644
--- a/src/v3d.h
+++ b/src/v3d.h
@@ -81,8 +81,11 @@ extern "C" {
  * Order of the polynomial density field to voxelize. 
  * 0 for constant (1 moment), 1 for linear (4 moments), 2 for quadratic (10 moments), etc.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - the vertex buffer
+ * is too small)
+ *
  */
-void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder);
+r3d_int r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing,
@@ -100,8 +103,11 @@ void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rv
  * \param [in] d 
  * The cell spacing of the grid. The origin of the grid is assumed to lie at the origin in space.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - the vertex buffer
+ * is too small)
+ *
  */
-void r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3d_rvec3 d);
+r3d_int r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3d_rvec3 d);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing.
-- 
2.43.0


From 14b64ad5ece3006cc5afd0fe422310c126b9fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:02 +0000
Subject: [PATCH 13/24] fix: rNd_clip and its callers wrote past a full vertex
 buffer instead of reporting it

---
 src/rNd.c |  9 ++++++---
 src/rNd.h |  5 ++++-
 src/vNd.c | 25 ++++++++++++++-----------
 src/vNd.h | 10 ++++++++--
 4 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index 9c824d5..be5c7fb 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -23,13 +23,13 @@
 #include <stdio.h>
 
 
-void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
+rNd_int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 
 	// direct access to vertex buffer
 	rNd_vertex* vertbuffer = poly->verts; 
 	rNd_int* nverts = &poly->nverts; 
 	rNd_int* nfaces = &poly->nfaces; 
-	if(*nverts <= 0) return;
+	if(*nverts <= 0) return 1;
 
 	// variable declarations
 	rNd_int i, v, p, np, np0, np1, onv, vcur, fcur, vprev, vnext, vstart, 
@@ -63,7 +63,7 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 		if(smin >= 0.0) continue;
 		if(smax <= 0.0) {
 			*nverts = 0;
-			return;
+			return 1;
 		}
 
 		// check all edges and insert new vertices on the bisected edges 
@@ -73,6 +73,7 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 			for(np = 0; np < RND_DIM; ++np) {
 				vnext = vertbuffer[vcur].pnbrs[np];
 				if(!clipped[vnext]) continue;
+				if(*nverts == RND_MAX_VERTS) return 0;
 				vertbuffer[*nverts].pnbrs[0] = vcur;
 				vertbuffer[vcur].pnbrs[np] = *nverts;
 				for(i = 0; i < RND_DIM; ++i) // weighted average of vertex positions
@@ -168,6 +169,8 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 			for(np = 0; np < RND_DIM; ++np)
 				vertbuffer[v].pnbrs[np] = clipped[vertbuffer[v].pnbrs[np]];
 	}
+
+	return 1;
 }
 
 
diff --git a/src/rNd.h b/src/rNd.h
index 620839c..9633baa 100644
--- a/src/rNd.h
+++ b/src/rNd.h
@@ -110,8 +110,11 @@ typedef struct {
  * \param[in] nplanes 
  * The number of hyperplanes in the input array. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - the vertex buffer
+ * is too small)
+ *
  */
-void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes);
+rNd_int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes);
 
 /**
  * \brief Integrate a polynomial density over a polytope. Still under development.
diff --git a/src/vNd.c b/src/vNd.c
index 39693f9..8a7c668 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -48,9 +48,9 @@
 #include <stdint.h>
 
 // TODO: make this a generic "split" routine that just takes a plane.
-void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax);
+rNd_int rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax);
 
-void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder) {
+rNd_int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder) {
 
 	rNd_int i, j, m, ncell, spax, dmax, nstack, siz;
 	rNd_long gind;
@@ -59,10 +59,10 @@ void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rve
 
 	// return if any parameters are bad 
 	// calculate grid size 
-	if(!poly || poly->nverts <= 0 || !dest_grid) return;
+	if(!poly || poly->nverts <= 0 || !dest_grid) return 1;
 	for(i = 0; i < RND_DIM; ++i) {
 		gridsz.ijk[i] = ibox[1].ijk[i]-ibox[0].ijk[i];	
-		if(gridsz.ijk[i] <= 0) return; 
+		if(gridsz.ijk[i] <= 0) return 1; 
 	}
 
 	// get the number of grid cells
@@ -129,15 +129,17 @@ void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rve
 		// split the poly and push children to the stack
 		children[0] = &stack[nstack].poly;
 		children[1] = &stack[nstack+1].poly;
-		rNd_split(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax);
+		if(!rNd_split(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax)) return 0;
 		memcpy(stack[nstack+1].ibox, stack[nstack].ibox, 2*sizeof(rNd_dvec));
 		stack[nstack].ibox[1].ijk[spax] -= dmax-dmax/2; 
 		stack[nstack+1].ibox[0].ijk[spax] += dmax/2;
 		nstack += 2;
 	}
+
+	return 1;
 }
 
-void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax) {
+rNd_int rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax) {
 
 	// naive split for now
 	*outpolys[0] = *inpoly;
@@ -146,10 +148,10 @@ void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax
 	memset(&splane, 0, sizeof(splane));
 	splane.n.xyz[ax] = -1.0;
 	splane.d = coord;
-	rNd_clip(outpolys[0], &splane, 1);
+	if(!rNd_clip(outpolys[0], &splane, 1)) return 0;
 	splane.n.xyz[ax] *= -1; 
 	splane.d *= -1;
-	rNd_clip(outpolys[1], &splane, 1);
+	return rNd_clip(outpolys[1], &splane, 1);
 
 #if 0
 
@@ -264,7 +266,7 @@ void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
 	}
 }
 
-void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
+rNd_int rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
 	rNd_int i, nboxclip;
 	rNd_plane boxfaces[2*RND_DIM];
 	nboxclip = 0;
@@ -273,7 +275,7 @@ void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_
 		if(ibox[1].ijk[i] <= clampbox[0].ijk[i] || ibox[0].ijk[i] >= clampbox[1].ijk[i]) {
 			memset(ibox, 0, 2*sizeof(rNd_dvec));
 			poly->nverts = 0;
-			return;
+			return 1;
 		}
 		if(ibox[0].ijk[i] < clampbox[0].ijk[i]) {
 			ibox[0].ijk[i] = clampbox[0].ijk[i];
@@ -288,5 +290,6 @@ void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_
 			nboxclip++;
 		}	
 	}
-	if(nboxclip) rNd_clip(poly, boxfaces, nboxclip);
+	if(nboxclip) return rNd_clip(poly, boxfaces, nboxclip);
+	return 1;
 }
diff --git a/src/vNd.h b/src/vNd.h
index 08022f3..5b659c2 100644
--- a/src/vNd.h
+++ b/src/vNd.h
@@ -81,8 +81,11 @@ extern "C" {
  * Order of the polynomial density field to voxelize. 
  * 0 for constant (1 moment), 1 for linear (4 moments), 2 for quadratic (10 moments), etc.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - the vertex buffer
+ * is too small)
+ *
  */
-void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder);
+rNd_int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing,
@@ -100,8 +103,11 @@ void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rve
  * \param [in] d 
  * The cell spacing of the grid. The origin of the grid is assumed to lie at the origin in space.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - the vertex buffer
+ * is too small)
+ *
  */
-void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d);
+rNd_int rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing.
-- 
2.43.0


From e79f2a3bda4732e02ef04eab1131f44936a7b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:02 +0000
Subject: [PATCH 14/24] fix: r3d_init_poly left a polyhedron of uninitialised
 vertices behind when it ran out of space

---
 src/r3d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/r3d.c b/src/r3d.c
index 89b89e1..92f3dbd 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -820,6 +820,7 @@ int r3d_init_poly(r3d_poly *poly, r3d_rvec3 *vertices, r3d_int numverts,
 #if !defined(NDEBUG)
                           fprintf(stderr, "r3d_init_poly: Max vertex buffer size exceeded; Increase R3D_MAX_VERTS");
 #endif
+                          *nverts = 0;
                           return 0;
                         }
         
-- 
2.43.0


From 74c60ebed097cec721b9d1fbb2267038f9a250eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:02 +0000
Subject: [PATCH 15/24] fix: r3d_poly_faces_from_verts could return a reversed
 normal for nonconvex faces

---
 src/r3d.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index 92f3dbd..adb9586 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1010,9 +1010,10 @@ void r3d_poly_faces_from_verts(r3d_plane *faces, r3d_rvec3 *vertices,
 
 		for (v = 0; v < numvertsperface[f]; ++v) {
 			// add cross product of edges to the total normal
-			p0 = vertices[faceinds[f][v]];
-			p1 = vertices[faceinds[f][(v + 1) % numvertsperface[f]]];
-			p2 = vertices[faceinds[f][(v + 2) % numvertsperface[f]]];
+			// (relative to the first vertex, so that nonconvex faces come out right)
+			p0 = vertices[faceinds[f][0]];
+			p1 = vertices[faceinds[f][v]];
+			p2 = vertices[faceinds[f][(v + 1) % numvertsperface[f]]];
 			faces[f].n.x +=
 					(p1.y - p0.y) * (p2.z - p0.z) - (p1.z - p0.z) * (p2.y - p0.y);
 			faces[f].n.y +=
@@ -1021,9 +1022,9 @@ void r3d_poly_faces_from_verts(r3d_plane *faces, r3d_rvec3 *vertices,
 					(p1.x - p0.x) * (p2.y - p0.y) - (p1.y - p0.y) * (p2.x - p0.x);
 
 			// add the vertex position to the centroid
-			centroid.x += p0.x;
-			centroid.y += p0.y;
-			centroid.z += p0.z;
+			centroid.x += p1.x;
+			centroid.y += p1.y;
+			centroid.z += p1.z;
 		}
 
 		// normalize the normals and set the signed distance to origin
-- 
2.43.0


From 2aa03c596929dd58c8e63dd127994d884b7f53a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:02 +0000
Subject: [PATCH 16/24] fix: the index box of an empty polytope came from an
 undefined float-to-integer conversion

---
 src/v2d.c | 4 ++++
 src/v3d.c | 4 ++++
 src/vNd.c | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/v2d.c b/src/v2d.c
index 068ad76..05ca59d 100644
--- a/src/v2d.c
+++ b/src/v2d.c
@@ -222,6 +222,10 @@ r2d_int r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r
 void r2d_get_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_rvec2 d) {
 	r2d_int i, v;
 	r2d_rvec2 rbox[2];
+	if(poly->nverts <= 0) {
+		memset(ibox, 0, 2*sizeof(r2d_dvec2));
+		return;
+	}
 	for(i = 0; i < 2; ++i) {
 		rbox[0].xy[i] = 1.0e30;
 		rbox[1].xy[i] = -1.0e30;
diff --git a/src/v3d.c b/src/v3d.c
index 4d01128..7549445 100644
--- a/src/v3d.c
+++ b/src/v3d.c
@@ -223,6 +223,10 @@ r3d_int r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r
 void r3d_get_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_rvec3 d) {
 	r3d_int i, v;
 	r3d_rvec3 rbox[2];
+	if(poly->nverts <= 0) {
+		memset(ibox, 0, 2*sizeof(r3d_dvec3));
+		return;
+	}
 	for(i = 0; i < 3; ++i) {
 		rbox[0].xyz[i] = 1.0e30;
 		rbox[1].xyz[i] = -1.0e30;
diff --git a/src/vNd.c b/src/vNd.c
index 8a7c668..1706f8c 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -250,6 +250,10 @@ rNd_int rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int
 void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
 	rNd_int i, v;
 	rNd_rvec rbox[2];
+	if(poly->nverts <= 0) {
+		memset(ibox, 0, 2*sizeof(rNd_dvec));
+		return;
+	}
 	for(i = 0; i < RND_DIM; ++i) {
 		rbox[0].xyz[i] = 1.0e30;
 		rbox[1].xyz[i] = -1.0e30;
-- 
2.43.0


From faa08a6644db20a642a655a3055753d50ce0da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:52 +0000
Subject: [PATCH 17/24] fix: deprecated r2d_clip_quad never returned when every
 vertex lies outside of a face

---
 deprecated/r2d.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index 704c11e..aa98ada 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -499,6 +499,9 @@ void r2d_clip_quad(r2d_poly* poly, unsigned char andcmp) {
 			}
 			vertbuffer[vcur].orient.fflags |= CLIP_MASK;
 			vcur = vnext;
+
+			// came full circle, so everything lies outside of the face
+			if(searching && vcur == vstart) return;
 		}
 
 		// traverse to the left
-- 
2.43.0


From 79b6ebcd6721442eca4e0eb566f5f6a4b66273a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:58 +0000
Subject: [PATCH 18/24] fix: deprecated r3d_voxelize_tet assigned tree-node
 corner distances to the wrong box vertices

---
 deprecated/r3d.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index 4ffd6a1..0450aec 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -344,9 +344,11 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 			k = curnode.kmin;
 
 			// initialize the unit cube connectivity 
+			// its vertices are row-major, unlike the corners of a tree node
+			static const unsigned char boxcorner[8] = {0, 4, 3, 7, 1, 5, 2, 6};
 			r3du_init_box(&voxel, rbounds);
 			for(v = 0; v < voxel.nverts; ++v)
-				voxel.verts[v].orient = curnode.orient[v];
+				voxel.verts[v].orient = curnode.orient[boxcorner[v]];
 
 			// clip and reduce
 			r3d_clip_tet(&voxel, andcmp);
-- 
2.43.0


From c9ca0701d73ad34c6888407b2118fe469f33232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:11 +0000
Subject: [PATCH 19/24] fix: deprecated voxelizers overflowed int in the
 quadratic moments of full cells on long grids

---
 deprecated/r2d.c |  8 ++++----
 deprecated/r3d.c | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index aa98ada..4ffa1bc 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -148,8 +148,8 @@ void r2d_rasterize_quad(r2d_plane* faces, r2d_dest_grid* grid) {
 				moments[2] = locvol*d.y*(j + 0.5); // y
 			}
 			if(polyorder >= 2) {
-				moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-				moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
+				moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+				moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
 				moments[5] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 			}
 
@@ -271,8 +271,8 @@ void r2d_rasterize_quad(r2d_plane* faces, r2d_dest_grid* grid) {
 					moments[2] = locvol*d.y*(j + 0.5); // y
 				}
 				if(polyorder >= 2) {
-					moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-					moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
+					moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+					moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
 					moments[5] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 				}
 
diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index 0450aec..dec2075 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -155,9 +155,9 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 				moments[3] = locvol*d.z*(k + 0.5); // z
 			}
 			if(polyorder >= 2) {
-				moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-				moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
-				moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3*k + 3*k*k); // z*z
+				moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+				moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
+				moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3.0*k + 3.0*k*k); // z*z
 				moments[7] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 				moments[8] = locvol*0.25*d.y*d.z*(1 + 2*j)*(1 + 2*k); // y*z
 				moments[9] = locvol*0.25*d.x*d.z*(1 + 2*i)*(1 + 2*k); // z*x
@@ -314,9 +314,9 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 					moments[3] = locvol*d.z*(k + 0.5); // z
 				}
 				if(polyorder >= 2) {
-					moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-					moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
-					moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3*k + 3*k*k); // z*z
+					moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+					moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
+					moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3.0*k + 3.0*k*k); // z*z
 					moments[7] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 					moments[8] = locvol*0.25*d.y*d.z*(1 + 2*j)*(1 + 2*k); // y*z
 					moments[9] = locvol*0.25*d.x*d.z*(1 + 2*i)*(1 + 2*k); // z*x
-- 
2.43.0


From f64ef33fd3718897b8b86cc3b374c6934c6c8cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:04 +0000
Subject: [PATCH 20/24] fix: rNd_clip read out of bounds or never returned when
 rounding puts vertices of a face on inconsistent sides of the plane

---
 src/rNd.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rNd.c b/src/rNd.c
index be5c7fb..01e626a 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -33,7 +33,7 @@ rNd_int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 
 	// variable declarations
 	rNd_int i, v, p, np, np0, np1, onv, vcur, fcur, vprev, vnext, vstart, 
-			pnext, numunclipped, fadj, prevnewvert, pprev, ftmp;
+			pnext, numunclipped, fadj, prevnewvert, pprev, ftmp, nsteps;
 
 	// signed distances to the clipping plane
 	rNd_real sdists[RND_MAX_VERTS];
@@ -109,7 +109,11 @@ rNd_int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 			vprev = vstart;
 			vcur = vertbuffer[vstart].pnbrs[0]; 
 			prevnewvert = vstart;
+			nsteps = 0;
 			do {
+				// the walk cannot close if rounding has put vertices of a common face
+				// on inconsistent sides of the plane
+				if(++nsteps > RND_DIM*RND_DIM*RND_MAX_VERTS) return 0;
 				if(vcur >= onv) {
 					for(pprev = 1; pprev < RND_DIM; ++pprev)
 						if(vertbuffer[vcur].finds[0][pprev] == fcur) break;
@@ -117,6 +121,7 @@ rNd_int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 						if(vertbuffer[prevnewvert].finds[0][pnext] == fcur) break;
 					for(np = 1; np < RND_DIM; ++np)
 						if(vertbuffer[vcur].finds[0][np] == fadj) break;
+					if(pprev == RND_DIM || pnext == RND_DIM || np == RND_DIM) return 0;
 					vertbuffer[vcur].pnbrs[pprev] = prevnewvert;
 					vertbuffer[prevnewvert].pnbrs[pnext] = vcur;
 					vertbuffer[vcur].finds[pprev][np] = *nfaces;
@@ -138,6 +143,7 @@ rNd_int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 					if(np == pprev) continue;
 					if(vertbuffer[vcur].finds[np][pprev] == fadj) break;
 				}
+				if(pprev == RND_DIM || pnext == RND_DIM || np == RND_DIM) return 0;
 				fadj = vertbuffer[vcur].finds[np][pnext];
 				vprev = vcur;
 				vcur = vertbuffer[vcur].pnbrs[pnext];
@@ -148,12 +154,16 @@ rNd_int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 				if(vertbuffer[prevnewvert].finds[0][pnext] == fcur) break;
 			for(np = 1; np < RND_DIM; ++np)
 				if(vertbuffer[vcur].finds[0][np] == fadj) break;
+			if(pprev == RND_DIM || pnext == RND_DIM || np == RND_DIM) return 0;
 			vertbuffer[vcur].pnbrs[pprev] = prevnewvert;
 			vertbuffer[prevnewvert].pnbrs[pnext] = vcur;
 			vertbuffer[vcur].finds[pprev][np] = *nfaces;
 			vertbuffer[vcur].finds[np][pprev] = *nfaces;
 			(*nfaces)++;
 		}
+		for(vstart = onv; vstart < *nverts; ++vstart)
+		for(np = 1; np < RND_DIM; ++np)
+			if(vertbuffer[vstart].pnbrs[np] < 0) return 0;
 
 		// go through and compress the vertex list, removing clipped verts
 		// and re-indexing accordingly (reusing `clipped` to re-index everything)
-- 
2.43.0


From 67fc1364eb4c258877c3d42b18a91271068c1f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:29 +0000
Subject: [PATCH 21/24] fix: r3d_init_poly left the previous polyhedron behind
 when refusing too many vertices

---
 src/r3d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/r3d.c b/src/r3d.c
index adb9586..be8a121 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -740,6 +740,7 @@ int r3d_init_poly(r3d_poly *poly, r3d_rvec3 *vertices, r3d_int numverts,
 #if !defined(NDEBUG)
           fprintf(stderr, "r3d_init_poly: Max vertex buffer size exceeded; Increase R3D_MAX_VERTS");
 #endif
+          poly->nverts = 0;
           return 0;
         }
         
-- 
2.43.0


From 126064aab252ba9c1635d0584f1927b642293fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:19 +0000
Subject: [PATCH 22/24] fix: r3d_voxelize and r2d_rasterize overflowed the grid
 index when the grid holds more than 2^31 moments

---
 src/v2d.c | 2 +-
 src/v3d.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2d.c b/src/v2d.c
index 05ca59d..e7e1d65 100644
--- a/src/v2d.c
+++ b/src/v2d.c
@@ -58,7 +58,7 @@ r2d_int r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r
 r2d_int r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder) {
 
 	r2d_int i, m, spax, dmax, nstack, siz;
-	r2d_int nmom = R2D_NUM_MOMENTS(polyorder);
+	r2d_long nmom = R2D_NUM_MOMENTS(polyorder);
 	r2d_real moments[nmom];
 	r2d_poly* children[2];
 	r2d_dvec2 gridsz;
diff --git a/src/v3d.c b/src/v3d.c
index 7549445..b955af1 100644
--- a/src/v3d.c
+++ b/src/v3d.c
@@ -59,7 +59,7 @@ r3d_int r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r
 r3d_int r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder) {
 
 	r3d_int i, m, spax, dmax, nstack, siz;
-	r3d_int nmom = R3D_NUM_MOMENTS(polyorder);
+	r3d_long nmom = R3D_NUM_MOMENTS(polyorder);
 	r3d_real moments[nmom];
 	r3d_poly* children[2];
 	r3d_dvec3 gridsz;
-- 
2.43.0


From 42f127c080a6fb99a876243b5bae01773fb710ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:47 +0000
Subject: [PATCH 23/24] fix: rNd_voxelize: 64-bit cell count and strides

---
 src/vNd.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vNd.c b/src/vNd.c
index 1706f8c..b31d8c9 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -52,10 +52,11 @@ rNd_int rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int
 
 rNd_int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder) {
 
-	rNd_int i, j, m, ncell, spax, dmax, nstack, siz;
-	rNd_long gind;
+	rNd_int i, j, m, spax, dmax, nstack, siz;
+	rNd_long ncell, gind;
 	rNd_poly* children[2];
-	rNd_dvec gridsz, stride;
+	rNd_dvec gridsz;
+	rNd_long stride[RND_DIM];
 
 	// return if any parameters are bad 
 	// calculate grid size 
@@ -70,8 +71,8 @@ rNd_int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_
 	ncell = 1; 
 	for(i = 0; i < RND_DIM; ++i) {
 		ncell *= gridsz.ijk[i]; 
-		stride.ijk[i] = 1;
-		for(j = i+1; j < RND_DIM; ++j) stride.ijk[i] *= gridsz.ijk[j]; 
+		stride[i] = 1;
+		for(j = i+1; j < RND_DIM; ++j) stride[i] *= gridsz.ijk[j]; 
 	}
 
 	// Only zeroth-order moments for now
@@ -118,7 +119,7 @@ rNd_int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_
 			// TODO: give this its own macro?
 			gind = 0;
 			for(i = 0; i < RND_DIM; ++i) 
-				gind += (stack[nstack].ibox[0].ijk[i]-ibox[0].ijk[i])*stride.ijk[i];
+				gind += (stack[nstack].ibox[0].ijk[i]-ibox[0].ijk[i])*stride[i];
 
 			// TODO: cell shifting for accuracy
 			for(m = 0; m < nmom; ++m) dest_grid[nmom*gind+m] += moments[m];
-- 
2.43.0


From 10e06f0539100137368e1136fc43856bbf43dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:51 +0000
Subject: [PATCH 24/24] fix: r3d_voxelize and r2d_rasterize: 64-bit cell index

---
 src/v2d.c | 2 +-
 src/v3d.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2d.c b/src/v2d.c
index e7e1d65..99cda80 100644
--- a/src/v2d.c
+++ b/src/v2d.c
@@ -101,7 +101,7 @@ r2d_int r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2
 		}
 
 		// if all three axes are only one raster long, reduce the single raster to the dest grid
-#define gind(ii, jj, mm) (nmom*((ii-ibox[0].i)*gridsz.j+(jj-ibox[0].j))+mm)
+#define gind(ii, jj, mm) (nmom*((r2d_long)(ii-ibox[0].i)*gridsz.j+(jj-ibox[0].j))+mm)
 		if(dmax == 1) {
 			r2d_reduce(&stack[nstack].poly, moments, polyorder);
 			// TODO: cell shifting for accuracy
diff --git a/src/v3d.c b/src/v3d.c
index b955af1..69020da 100644
--- a/src/v3d.c
+++ b/src/v3d.c
@@ -102,7 +102,7 @@ r3d_int r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d
 		}
 
 		// if all three axes are only one voxel long, reduce the single voxel to the dest grid
-#define gind(ii, jj, kk, mm) (nmom*((ii-ibox[0].i)*gridsz.j*gridsz.k+(jj-ibox[0].j)*gridsz.k+(kk-ibox[0].k))+mm)
+#define gind(ii, jj, kk, mm) (nmom*((r3d_long)(ii-ibox[0].i)*gridsz.j*gridsz.k+(r3d_long)(jj-ibox[0].j)*gridsz.k+(kk-ibox[0].k))+mm)
 		if(dmax == 1) {
 			r3d_reduce(&stack[nstack].poly, moments, polyorder);
 			// TODO: cell shifting for accuracy
-- 
2.43.0

