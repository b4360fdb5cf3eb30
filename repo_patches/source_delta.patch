From 46cb717fbe4e4fd91996fca120c661dd435d3a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:42 +0000
Subject: [PATCH 01/80] fix: include the last row and column of the filter
 support in ImageFilm::add_pixel

The support was computed as an inclusive range but walked as an exclusive
one, so with a box filter a sample in the first half of a pixel was only
added to the previous pixel and samples in the first half pixel of the image
were dropped.
---
 src/cameras/image_film.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 821fb54..075dfe0 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -59,12 +59,12 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     int update_y1 = (int)floorf(centre_y+filter->range_y);
     update_x0 = max(update_x0, 0);
     update_y0 = max(update_y0, 0);
-    update_x1 = min(update_x1, width);
-    update_y1 = min(update_y1, height);
+    update_x1 = min(update_x1, width-1);
+    update_y1 = min(update_y1, height-1);
 
     //foreach affected pixel
-    for(int y = update_y0; y<update_y1; y++)
-        for(int x = update_x0; x<update_x1; x++)
+    for(int y = update_y0; y<=update_y1; y++)
+        for(int x = update_x0; x<=update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
             if(x<secure_area->startx || x>secure_area->endx ||
-- 
2.43.0


From 5dfeed3c35cb1f9e7b51ec527c633a42bb249e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:04 +0000
Subject: [PATCH 02/80] fix: defer every film pixel that other threads can
 reach

ImageFilm::add_pixel updated without holding the lock the border pixels of
its own sub-image (and one row and column of the next ones), while the
deferred contributions of neighbouring sub-images to the same pixels were
being added under the lock by other threads, losing updates.
---
 src/cameras/image_film.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 075dfe0..83a6b89 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -62,13 +62,18 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     update_x1 = min(update_x1, width-1);
     update_y1 = min(update_y1, height-1);
 
+    //pixels that a sample of another sub-image could also reach are critical
+    float safe_x0 = secure_area->startx-0.5f+filter->range_x;
+    float safe_y0 = secure_area->starty-0.5f+filter->range_y;
+    float safe_x1 = secure_area->endx-0.5f-filter->range_x;
+    float safe_y1 = secure_area->endy-0.5f-filter->range_y;
+
     //foreach affected pixel
     for(int y = update_y0; y<=update_y1; y++)
         for(int x = update_x0; x<=update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
-            if(x<secure_area->startx || x>secure_area->endx ||
-               y<secure_area->starty || y>secure_area->endy)
+            if(x<=safe_x0 || x>=safe_x1 || y<=safe_y0 || y>=safe_y1)
             {
                 //critical section, other threads could interfere. deferred add
                 TodoPixel pixel_toadd;
-- 
2.43.0


From 79bf819882139a116d2d1cf31d87404b9b702be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:43 +0000
Subject: [PATCH 03/80] fix: refuse assets past the limit in KdTree::addAsset

The limit was reported but the asset was stored anyway, past the end of the
array.
---
 src/accelerators/kdtree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 968e24b..3f9b150 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -151,7 +151,10 @@ KdTree::~KdTree()
 void KdTree::addAsset(const Asset* addme)
 {
     if(assets_number == _MAX_ASSETS_)
+    {
         Console.severe(MESSAGE_MAXASSETNUMBER);
+        return;
+    }
     if(assets_number == assets_allocated)
     {
         int allocNo = min(assets_allocated << 1, _MAX_ASSETS_);
-- 
2.43.0


From 73a6b308f4133e4518745e0f415c98927f5b6fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:43 +0000
Subject: [PATCH 04/80] fix: keep flat assets when the kd-tree splits on their
 plane

Candidates at the same position were sorted in any order: with the right side
of a flat aabb before its left side the asset ended up in neither child.
---
 src/accelerators/kdtree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 3f9b150..8e55c7a 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -108,8 +108,12 @@ namespace KdHelpers
     };
 
     //used to sort the splicandidate in the kdtree build
+    //the left side of a flat aabb must come before its right side, otherwise
+    //splitting there leaves the asset out of both children
     bool compare_sc(const SplitCandidate s1, const SplitCandidate s2)
     {
+        if(s1.pos == s2.pos)
+            return s1.isLeftSide && !s2.isLeftSide;
         return s1.pos<s2.pos;
     }
 
-- 
2.43.0


From 2ccee60ba70a49e0e6b112ca04fe0c4bf21e352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:59 +0000
Subject: [PATCH 05/80] fix: build the kd-tree from the added assets every time

buildTree stored the leaf references over the list of added assets: a second
build, like the one of a second render, worked on duplicated assets and left
the old root in place, and scenes with many straddling assets hit the limit
of assets and wrote past the array while building.
---
 src/accelerators/kdtree.cpp | 49 ++++++++++++++++++++++++++++---------
 src/accelerators/kdtree.hpp | 13 ++++++++++
 2 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 8e55c7a..d344241 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -138,17 +138,23 @@ KdTree::KdTree()
     KdTree::assets_number = 0;
     KdTree::assets_allocated = KDNODE_ALLOC;
 
+    KdTree::leavesList = (const Asset**)malloc(sizeof(Asset*)*KDNODE_ALLOC);
+    KdTree::leaves_number = 0;
+    KdTree::leaves_allocated = KDNODE_ALLOC;
+
     KdTree::nodesList = (KdTreeNode*)malloc(sizeof(KdTreeNode)*KDNODE_ALLOC);
     KdTree::nodes_index = 0;
     KdTree::nodes_allocated = KDNODE_ALLOC;
 
-    if(KdTree::assetsList == NULL || KdTree::nodesList == NULL)
+    if(KdTree::assetsList == NULL || KdTree::nodesList == NULL ||
+       KdTree::leavesList == NULL)
         Console.critical(MESSAGE_NOMEMORY("KdTree init"));
 }
 
 KdTree::~KdTree()
 {
     free(assetsList);
+    free(leavesList);
     free(nodesList);
 }
 
@@ -176,6 +182,25 @@ void KdTree::addAsset(const Asset* addme)
     assetsList[assets_number++] = addme;
 }
 
+void KdTree::addToLeaf(const Asset* addme)
+{
+    if(leaves_number == leaves_allocated)
+    {
+        int allocNo = leaves_allocated << 1;
+        const Asset** tmp = (const Asset**)malloc(sizeof(Asset*)*allocNo);
+        if(tmp)
+        {
+            memcpy(tmp, leavesList, leaves_number*sizeof(Asset*));
+            leaves_allocated = allocNo;
+            free(KdTree::leavesList);
+            KdTree::leavesList = tmp;
+        }
+        else
+            Console.critical(MESSAGE_NOMEMORY("KdTree building"));
+    }
+    leavesList[leaves_number++] = addme;
+}
+
 void KdTree::finalize(void* n)
 {
     using KdHelpers::KdTreeBuildNode;
@@ -230,13 +255,13 @@ void KdTree::buildTree()
     for(int i = 1; i<assets_number; i++)
         scene_aabb.engulf(assetsList[i]->get_AABB());
 
-    //copy the assets, since the original array will be rewritten in a
-    //different order
+    //copy the assets, leaving the original array untouched for later builds
     Asset** alcopy = (Asset**)malloc(sizeof(Asset*)*KdTree::assets_number);
     memcpy(alcopy, KdTree::assetsList, sizeof(Asset*)*KdTree::assets_number);
-    unsigned int a_n = KdTree::assets_number; //assets_number will be set to 0
-    KdTree::assets_number = 0;//and assets will be reinserted in order during
-    //building of the kd-tree
+    unsigned int a_n = KdTree::assets_number;
+    //discard the previous tree, if any
+    KdTree::leaves_number = 0;
+    KdTree::nodes_index = 0;
 
     //allocate the array of possible candidates. sc[axis][candidate]
     SplitCandidate** sc = (SplitCandidate**)malloc(sizeof(SplitCandidate*)*3);
@@ -272,14 +297,14 @@ void KdTree::build(void* n, char depth, void* s_c, Asset** a_l,
     //terminate recursion if max depth or too few assets
     if(depth == KD_MAX_DEPTH || a_n<=_LEAF_ASSETS_)
     {
-        node->offset_start = KdTree::assets_number;
+        node->offset_start = KdTree::leaves_number;
         node->assets_number = a_n;
 
-        //assets are added in order to the Class assets array
+        //assets are added in order to the Class leaves array
         //now i can reference them with a pointer to the first and the number
         //of assets for the leaf
         for(unsigned int i = 0; i<a_n; i++)
-            KdTree::addAsset(a_l[i]);
+            KdTree::addToLeaf(a_l[i]);
         node->isLeaf = true;
         node->left = NULL;
         node->right = NULL;
@@ -371,10 +396,10 @@ void KdTree::build(void* n, char depth, void* s_c, Asset** a_l,
     //best cost sucks, better not to split at all -> make a leaf
     if((best_cost>4.f*old_cost && a_n<16) || best_axis == 0xFF)
     {
-        node->offset_start = KdTree::assets_number;
+        node->offset_start = KdTree::leaves_number;
         node->assets_number = a_n;
         for(unsigned int i = 0; i<a_n; i++)
-            KdTree::addAsset(a_l[i]);
+            KdTree::addToLeaf(a_l[i]);
         node->isLeaf = true;
         node->left = NULL;
         node->right = NULL;
@@ -490,7 +515,7 @@ bool KdTree::intersect(const Ray* r, HitPoint* h) const
             //try to intersect every asset
             for(unsigned int i = 0; i<a_n; i++)
             {
-                current_asset = assetsList[n->getAssetOffset()+i];
+                current_asset = leavesList[n->getAssetOffset()+i];
 
                 //firstly try with the aabb since it's faster
                 if(current_asset->intersect_AABB(r, &rp, &res1, &res2))
diff --git a/src/accelerators/kdtree.hpp b/src/accelerators/kdtree.hpp
index 00831f8..a25a018 100644
--- a/src/accelerators/kdtree.hpp
+++ b/src/accelerators/kdtree.hpp
@@ -231,6 +231,9 @@ private:
     void build(void* node, char depth, void* split_candidates,
                Asset** assets_list, unsigned int assets_number, AABB area);
 
+    //append an asset to the ones referenced by the leaves
+    void addToLeaf(const Asset* addme);
+
     //flatten out the tree into an array
     void finalize(void* node);
 
@@ -246,6 +249,16 @@ private:
     //the allocated size of the assetsList array
     int assets_allocated;
 
+    //the assets referenced by the leaves, leaf after leaf. An asset appears in
+    //every leaf it overlaps
+    const Asset** leavesList;
+
+    //the number of assets referenced and the index of the next insertion
+    int leaves_number;
+
+    //the allocated size of the leavesList array
+    int leaves_allocated;
+
     //the list of nodes managed by this kd-tree
     KdTreeNode* nodesList;
 
-- 
2.43.0


From b08167eda85dfc13021fcf0e578ee92565d59424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:07 +0000
Subject: [PATCH 06/80] fix: do not report boxes beside a ray that runs along
 one of their planes

---
 src/primitives/box.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primitives/box.cpp b/src/primitives/box.cpp
index 04e5efd..1017121 100644
--- a/src/primitives/box.cpp
+++ b/src/primitives/box.cpp
@@ -69,8 +69,9 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     float far = (1.f-r->origin.x)*invr;
     if(near>far)
         swap(&near, &far);
-    mint = near;
-    maxt = far;
+    //undefined if the ray lies on the plane, do not let it hide the others
+    mint = std::isnan(near)?-INFINITY:near;
+    maxt = std::isnan(far)?INFINITY:far;
 
     //y plane
     invr = 1.0f/r->direction.y;
-- 
2.43.0


From 306fb198c9272da1e67dd3bcff31ef3ed44d8e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:31 +0000
Subject: [PATCH 07/80] fix: intersect an AABB with rays along its planes and
 with negative zeros

---
 src/geometry/AABB.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/geometry/AABB.cpp b/src/geometry/AABB.cpp
index 8eddea5..8dfa475 100644
--- a/src/geometry/AABB.cpp
+++ b/src/geometry/AABB.cpp
@@ -2,6 +2,7 @@
 //license: GNU GPLv3
 
 #include "AABB.hpp"
+#include <cmath>
 
 AABB::AABB():bounds{Point3(INFINITY, INFINITY, INFINITY),
                     Point3(-INFINITY, -INFINITY, -INFINITY)}
@@ -100,7 +101,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
     float invx = 1.f/r->direction.x;
     float invy = 1.f/r->direction.y;
     float invz = 1.f/r->direction.z;
-    if(r->direction.x>=0)
+    if(invx>=0)
     {
         minxt = (bounds[0].x-r->origin.x)*invx;
         maxxt = (bounds[1].x-r->origin.x)*invx;
@@ -110,7 +111,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
         minxt = (bounds[1].x-r->origin.x)*invx;
         maxxt = (bounds[0].x-r->origin.x)*invx;
     }
-    if(r->direction.y>=0)
+    if(invy>=0)
     {
         minyt = (bounds[0].y-r->origin.y)*invy;
         maxyt = (bounds[1].y-r->origin.y)*invy;
@@ -121,6 +122,11 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
         maxyt = (bounds[0].y-r->origin.y)*invy;
     }
 
+    //undefined if the ray lies on the plane, do not let it hide the others
+    if(std::isnan(minxt))
+        minxt = -INFINITY;
+    if(std::isnan(maxxt))
+        maxxt = INFINITY;
     if((minyt>maxxt) || (minxt>maxyt))
         return false;
     if(minyt>minxt)
@@ -128,7 +134,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
     if(maxyt<maxxt)
         maxxt = maxyt;
 
-    if(r->direction.z>=0)
+    if(invz>=0)
     {
         minzt = (bounds[0].z-r->origin.z)*invz;
         maxzt = (bounds[1].z-r->origin.z)*invz;
@@ -160,6 +166,11 @@ const
     minyt = (bounds[p->isYInvNeg].y-r->origin.y)*p->inverseY;
     maxyt = (bounds[1-p->isYInvNeg].y-r->origin.y)*p->inverseY;
 
+    //undefined if the ray lies on the plane, do not let it hide the others
+    if(std::isnan(mint))
+        mint = -INFINITY;
+    if(std::isnan(maxt))
+        maxt = INFINITY;
     if(mint>maxyt || minyt>maxt)
         return false;
     if(minyt>mint)
-- 
2.43.0


From 608a72672a00b8f9027d9ef980180f8ca2b2c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 08/80] fix: visit both children of a kd-tree plane the ray
 lies on

---
 src/accelerators/kdtree.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index d344241..d4951a5 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -465,7 +465,14 @@ bool KdTree::intersect(const Ray* r, HitPoint* h) const
     while(n != NULL)
     {
         if(bestdistance<mint) //a closer intersection has been found
-            break;
+        {
+            if(jobs_stack_top == 0)
+                break;
+            n = jobs[--jobs_stack_top].node;
+            mint = jobs[jobs_stack_top].mint;
+            maxt = jobs[jobs_stack_top].maxt;
+            continue;
+        }
 
         if(!n->isLeaf()) //if internal node
         {
@@ -491,8 +498,16 @@ bool KdTree::intersect(const Ray* r, HitPoint* h) const
                 right = n+1;
             }
 
+            //the ray lies on the plane, both nodes need the entire interval
+            if(std::isnan(planet))
+            {
+                jobs[jobs_stack_top].node = right;
+                jobs[jobs_stack_top].mint = mint;
+                jobs[jobs_stack_top++].maxt = maxt;
+                n = left;
+            }
             //special cases, only 1 node needs to be processed
-            if(planet>maxt || planet<=0)
+            else if(planet>maxt || planet<=0)
                 n = left;
             else if(planet<mint)
                 n = right;
-- 
2.43.0


From c4a7511f113237fd8cacb58ddcf6003f31343b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 09/80] fix: report the index a hit triangle was added with, as
 materials do

---
 src/accelerators/bvh.cpp | 9 ++++++++-
 src/accelerators/bvh.hpp | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index b0c61dd..b34a68d 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -301,11 +301,17 @@ static uint32_t traverseTree(Triangle* tris, Primitive* p, uint32_t offs,
 Bvh::~Bvh()
 {
     free(nodesList);
+    free(order);
 }
 
 void Bvh::buildTree(Triangle* tris, int len)
 {
     Bvh::tris = tris;
+    free(nodesList); //in case of rebuild
+    free(order);
+    order = (uint32_t*)malloc(sizeof(uint32_t)*(len+1));
+    for(int i = 0; i<len; i++)
+        order[i] = (uint32_t)i;
     if(len<AAC_DELTA) //small mesh
     {
         Bvh::nodesList = (BvhNode*)malloc(sizeof(BvhNode));
@@ -368,6 +374,7 @@ void Bvh::buildTree(Triangle* tris, int len)
         tris[i].a = tmp[prims[i].index].a; //copy from the reference
         tris[i].b = tmp[prims[i].index].b;
         tris[i].c = tmp[prims[i].index].c;
+        order[i] = (uint32_t)prims[i].index;
     }
     free(tmp);
     free(prims);
@@ -428,7 +435,7 @@ bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
                     unsigned int tmp_index = node->offset+i;
                     if(Bvh::tris[tmp_index].intersect(r, distance, h, mask))
                     {
-                        h->index = tmp_index;
+                        h->index = order[tmp_index];
                         found = true;
                     }
                 }
diff --git a/src/accelerators/bvh.hpp b/src/accelerators/bvh.hpp
index 9c092f1..a9e6298 100644
--- a/src/accelerators/bvh.hpp
+++ b/src/accelerators/bvh.hpp
@@ -17,6 +17,7 @@
 #include "primitives/triangle.hpp"
 #include "textures/mask_boolean.hpp"
 #include <algorithm>
+#include <cstdint>
 #include <vector>
 
 ///Alpha parameter for AAC. 0.4 for high quality trees, 0.3 for fast buildup
@@ -110,7 +111,10 @@ private:
     void flatten(void*, uint32_t*);
 
     //The flattened tree
-    BvhNode* nodesList;
+    BvhNode* nodesList = NULL;
+
+    //The position every triangle had before being reordered by the build
+    uint32_t* order = NULL;
 
     //A pointer to the array of triangles around which the bvh is built
     Triangle* tris;
-- 
2.43.0


From 08a8b5c86b9ac9b85d79ae71de30de6c2b39813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:53 +0000
Subject: [PATCH 10/80] fix: size the bvh traversal stack on the depth of the
 tree

---
 src/accelerators/bvh.cpp | 24 +++++++++++++++++-------
 src/accelerators/bvh.hpp |  5 ++++-
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index b34a68d..edde845 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -309,6 +309,7 @@ void Bvh::buildTree(Triangle* tris, int len)
     Bvh::tris = tris;
     free(nodesList); //in case of rebuild
     free(order);
+    depth = 0;
     order = (uint32_t*)malloc(sizeof(uint32_t)*(len+1));
     for(int i = 0; i<len; i++)
         order[i] = (uint32_t)i;
@@ -361,7 +362,7 @@ void Bvh::buildTree(Triangle* tris, int len)
     }
     uint32_t index = 0;
 
-    flatten(clusters.at(0), &index);
+    flatten(clusters.at(0), &index, 0);
 
     //reorder the Triangle* array
     //this is actually horrible but I don't want to deallocate array under
@@ -380,11 +381,13 @@ void Bvh::buildTree(Triangle* tris, int len)
     free(prims);
 }
 
-void Bvh::flatten(void* n, uint32_t* index)
+void Bvh::flatten(void* n, uint32_t* index, uint32_t level)
 {
     BvhBuildNode* node = (BvhBuildNode*)n;
     if(node->left == NULL) //leaf
     {
+        if(level>depth)
+            depth = level;
         nodesList[*index].bounding = node->bounding;
         nodesList[*index].offset = node->offset;
         nodesList[*index].len = (uint8_t)node->number;
@@ -397,19 +400,19 @@ void Bvh::flatten(void* n, uint32_t* index)
         uint32_t myindex = (*index)++;
 
         //left node is right after the parent, right node is somewhere else
-        flatten(node->left, index);
+        flatten(node->left, index, level+1);
 
         //I processed all the left nodes, so now I know the right node position
         nodesList[myindex].bounding = node->bounding;
         nodesList[myindex].sibling = *index;
         nodesList[myindex].len = 0;
         nodesList[myindex].axis = (uint8_t)(node->split);
-        flatten(node->right, index);
+        flatten(node->right, index, level+1);
     }
     delete (node);
 }
 
-///Max depth of the Bvh tree
+///Depth of the Bvh tree that can be traversed without allocating memory
 #define BVH_MAX_DEPTH 32
 
 bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
@@ -420,8 +423,15 @@ bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
     float dmax;
     bool found = false;
 
-    BvhNode* jobs[BVH_MAX_DEPTH];
-    unsigned char jobs_stack_top = 0;
+    BvhNode* jobs_local[BVH_MAX_DEPTH];
+    std::vector<BvhNode*> jobs_deep;
+    BvhNode** jobs = jobs_local;
+    if(depth>BVH_MAX_DEPTH) //the jobs are at most one for each level
+    {
+        jobs_deep.resize(depth);
+        jobs = jobs_deep.data();
+    }
+    unsigned int jobs_stack_top = 0;
     BvhNode* node = Bvh::nodesList;
     while(node != NULL)
     {
diff --git a/src/accelerators/bvh.hpp b/src/accelerators/bvh.hpp
index a9e6298..cf25d56 100644
--- a/src/accelerators/bvh.hpp
+++ b/src/accelerators/bvh.hpp
@@ -108,7 +108,7 @@ public:
 private:
 
     //transform the temp build structure in the flattened one
-    void flatten(void*, uint32_t*);
+    void flatten(void*, uint32_t*, uint32_t);
 
     //The flattened tree
     BvhNode* nodesList = NULL;
@@ -116,6 +116,9 @@ private:
     //The position every triangle had before being reordered by the build
     uint32_t* order = NULL;
 
+    //Number of interior nodes above the deepest leaf
+    uint32_t depth = 0;
+
     //A pointer to the array of triangles around which the bvh is built
     Triangle* tris;
 };
-- 
2.43.0


From a39b577355f70a598884cf40a9472133e71ba72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:38 +0000
Subject: [PATCH 11/80] fix: report the exit face's normal for rays starting
 inside a box

---
 src/primitives/box.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/primitives/box.cpp b/src/primitives/box.cpp
index 1017121..6e77180 100644
--- a/src/primitives/box.cpp
+++ b/src/primitives/box.cpp
@@ -62,6 +62,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     float mint;
     float maxt;
     char axis = 0; //used for normal identification
+    char exit_axis = 0; //same thing, if the ray starts inside
 
     //x plane
     float invr = 1.0f/r->direction.x;
@@ -84,7 +85,11 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         mint = near;
         axis = 1;
     }
-    maxt = far<maxt?far:maxt;
+    if(far<maxt)
+    {
+        maxt = far;
+        exit_axis = 1;
+    }
     if(mint>maxt)
         return false;
 
@@ -99,7 +104,11 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         mint = near;
         axis = 2;
     }
-    maxt = far<maxt?far:maxt;
+    if(far<maxt)
+    {
+        maxt = far;
+        exit_axis = 2;
+    }
     if(mint>maxt)
         return false;
     float tmpdistance;
@@ -108,6 +117,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     else if(maxt>SELF_INTERSECT_ERROR)
     {
         inside = true;
+        axis = exit_axis;
         tmpdistance = maxt;
     }
     else
-- 
2.43.0


From b7acdb784954173999626ec89bf9487007bd7986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:38 +0000
Subject: [PATCH 12/80] fix: set both tangents of a box hit

---
 src/primitives/box.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/box.cpp b/src/primitives/box.cpp
index 6e77180..ac66f29 100644
--- a/src/primitives/box.cpp
+++ b/src/primitives/box.cpp
@@ -136,6 +136,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
             h->dpdu = Vec3(h->normal_h.z, 0, 0);
         else
             h->dpdu = Vec3(-h->normal_h.y, h->normal_h.x, 0);
+        h->dpdv = Vec3(h->normal_h).cross(h->dpdu);
         h->index = 0;
         return true;
         //TODO: missing uv generation, and masking should be done after uvs
-- 
2.43.0


From 039a6d3c4c0c5782193fb16eb7ee28b57b539c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:48 +0000
Subject: [PATCH 13/80] fix: invert the matrices of small objects

---
 src/geometry/matrix4.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/matrix4.cpp b/src/geometry/matrix4.cpp
index 0ed5f94..799ac20 100644
--- a/src/geometry/matrix4.cpp
+++ b/src/geometry/matrix4.cpp
@@ -409,7 +409,8 @@ bool Matrix4::inverse(Matrix4* output) const
     det = Matrix4::m00*inv[0]+Matrix4::m01*inv[4]
           +Matrix4::m02*inv[8]+Matrix4::m03*inv[12];
 
-    if(flt_equal(det, 0.0f))
+    //an absolute tolerance would refuse every small enough object
+    if(det == 0.0f)
         return false;
 
     det = 1.0f/det;
-- 
2.43.0


From 41027953a31c4a9189f4c436cd34c8a44601752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:07 +0000
Subject: [PATCH 14/80] fix: sample the triangle whose density interval was
 drawn

---
 src/primitives/mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/mesh.cpp b/src/primitives/mesh.cpp
index 6f250c8..e9fdb78 100644
--- a/src/primitives/mesh.cpp
+++ b/src/primitives/mesh.cpp
@@ -182,7 +182,7 @@ void Mesh::sample_point(float r0, float r1, const float* densities, Point3* p,
 
     //limit cases, they generate infinite loops
     //first triangle of the array
-    if(extSample<densities[0])
+    if(extSample<densities[0] || end == 0)
     {
         sample01 = inverse_lerp(extSample, 0, densities[0]);
         tris[0].sample_point(sample01, r1, NULL, p, n);
@@ -213,5 +213,5 @@ void Mesh::sample_point(float r0, float r1, const float* densities, Point3* p,
     //sample the triangle
     sample01 = inverse_lerp(extSample-densities[mid], 0,
                             densities[mid+1]-densities[mid]);
-    tris[mid].sample_point(sample01, r1, NULL, p, n);
+    tris[mid+1].sample_point(sample01, r1, NULL, p, n);
 }
-- 
2.43.0


From d168893eeac4c3c96fba16dce96b21fb356e2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:39 +0000
Subject: [PATCH 15/80] fix: resolve . and .. components of any length anywhere
 in a path

---
 src/utility/file.cpp | 108 +++++++++++++++++--------------------------
 1 file changed, 42 insertions(+), 66 deletions(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 60dfb90..b9a2929 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -63,79 +63,55 @@ static void append_relative(const char* abs, const char* relative, char* out)
     strcpy(out, abs);
     int absolute_index = (int)strlen(abs);
     unsigned int relative_index = 0;
-    if(rel[0] == '.')
+    const unsigned int rel_len = (unsigned int)strlen(rel);
+    //the root folder already ends with a separator
+    if(absolute_index>min_abs_index &&
+       out[absolute_index-1] == File::PATH_SEPARATOR)
     {
-        //resolve ../file
-        if(rel[1] == '.' && rel[2] == File::PATH_SEPARATOR)
-        {
-            relative_index = 2;
-            //backtrack to previous / in the absolute path
-            //(guaranteed to exists since file is absolute)
-            //position right on / ready to be substituted
-            while(absolute_index-->min_abs_index &&
-                  out[absolute_index] != File::PATH_SEPARATOR);
-        }
-        else if(rel[1] == File::PATH_SEPARATOR) //resolve ./file
-            relative_index = 1;
-    }
-    if(rel[relative_index] != File::PATH_SEPARATOR &&
-        absolute_index > min_abs_index) //to avoid starting with \\ on win abs
-    {
-        out[absolute_index++] = File::PATH_SEPARATOR;
+        absolute_index--;
     }
-    /*
-     *  at this point
-     *  -> relative path does not start with . (checked in this if)
-     *  -> relative starts with / or a filename
-     *  -> absolute path ends with / if relative does not starts with /
-     */
-    while(relative_index<strlen(rel))
+    //every component of the relative path is visited, separators excluded
+    while(relative_index<rel_len)
     {
-        if(rel[relative_index] == File::PATH_SEPARATOR)
-        {
-            if(rel[relative_index+1] == '.')
-            {
-                //handle /./
-                if(rel[relative_index+2] == File::PATH_SEPARATOR ||
-                   rel[relative_index+2] == 0)
-                {
-                    relative_index += 2;
-                    continue;
-                }
-                    //handle /../
-                else if(rel[relative_index+2] == '.' &&
-                        (rel[relative_index+3] == File::PATH_SEPARATOR ||
-                         rel[relative_index+3] == 0))
-                {
-                    relative_index += 3;
-                    //avoid out of bounds if too many ../../../
-                    if(absolute_index<=min_abs_index+1)
-                        continue;
-                    absolute_index -= 2;
-                    while((absolute_index--)>min_abs_index &&
-                          out[absolute_index] != File::PATH_SEPARATOR);
-                    continue;
-                }
-            }
-                //handle //
-            else if(rel[relative_index+1] == File::PATH_SEPARATOR
 #ifdef _WIN32
-                    && absolute_index>0 //avoid erasing \\ in UNC paths
+        //keep the \\ of UNC paths, or the C: of absolute ones
+        if(abs[0] == 0 && relative_index<(unsigned int)min_abs_index)
+        {
+            out[absolute_index++] = rel[relative_index++];
+            continue;
+        }
 #endif
-                )
-            {
-                relative_index++;
-                continue;
-            }
+        //handle // and the trailing /
+        if(rel[relative_index] == File::PATH_SEPARATOR)
+        {
+            relative_index++;
+            continue;
         }
-        out[absolute_index++] = rel[relative_index++];
-    }
-    //remove last trailing char, if exists and not root trailing
-    if(out[absolute_index - 1] == File::PATH_SEPARATOR &&
-        absolute_index > min_abs_index +1)
-    {
-        absolute_index--;
+        unsigned int len = 0;
+        while(rel[relative_index+len] != 0 &&
+              rel[relative_index+len] != File::PATH_SEPARATOR)
+        {
+            len++;
+        }
+        if(len == 2 && rel[relative_index] == '.' &&
+           rel[relative_index+1] == '.')
+        {
+            //handle ..
+            //backtrack to previous / in the absolute path, if any
+            while(absolute_index>min_abs_index &&
+                  out[--absolute_index] != File::PATH_SEPARATOR);
+        }
+        else if(len != 1 || rel[relative_index] != '.') //skip .
+        {
+            out[absolute_index++] = File::PATH_SEPARATOR;
+            memcpy(out+absolute_index, rel+relative_index, len);
+            absolute_index += len;
+        }
+        relative_index += len;
     }
+    //root folder, the only one ending with a separator
+    if(absolute_index == min_abs_index)
+        out[absolute_index++] = File::PATH_SEPARATOR;
     out[absolute_index] = 0;
     free(rel);
 }
-- 
2.43.0


From 5a0f441b8877c7bd22003c59d4dcfe2dc452f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:52 +0000
Subject: [PATCH 16/80] fix: name the parent folder when it lies in the root
 folder

---
 src/utility/file.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index b9a2929..a9d0232 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -326,11 +326,8 @@ File File::get_parent() const
             retval.ext = retval.file-1;
             //go back with the file pointer until the last /
             while(i-->max_decrement && file[i] != File::PATH_SEPARATOR);
-            //if not root, point to the filename
-            if(i != max_decrement)
-                retval.file += i+1;
-            //else
-            /* do nothing, already catched in the max_decrement==-1 */;
+            //point to the filename
+            retval.file += i+1;
         }
     }
     return retval;
-- 
2.43.0


From c4b717908695270cf85639b3d86fe360502dda29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 17/80] fix: allow a path to be assigned to itself, release the
 replaced one

---
 src/utility/file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index a9d0232..279d9df 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -251,6 +251,9 @@ bool File::is_file() const
 
 File& File::operator=(const File& old)
 {
+    if(this == &old)
+        return *this;
+    free(File::absolute);
     File::absolute = (char*)malloc(sizeof(char)*(strlen(old.absolute)+1));
     strcpy(absolute, old.absolute);
     //recalculate offsets(since I cannot blindly copy pointers of other classes)
-- 
2.43.0


From 4aaed04401090186adeba6318fa2bdd531cf8b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 18/80] fix: look up the parent folder rather than describing
 it as its child

---
 src/utility/file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 279d9df..413d2a9 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -332,6 +332,10 @@ File File::get_parent() const
             //point to the filename
             retval.file += i+1;
         }
+#ifndef _WIN32
+        //the copied informations are those of the child
+        retval.statres = stat(retval.absolute, &(retval.fileinfo)) == 0;
+#endif
     }
     return retval;
 }
-- 
2.43.0


From 41e0740926af7f1383b762dfbd47d160ce26f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 19/80] fix: add an asset inherited twice only once to the tree
 of the scene

---
 src/utility/scene.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/scene.cpp b/src/utility/scene.cpp
index f253656..fa51607 100644
--- a/src/utility/scene.cpp
+++ b/src/utility/scene.cpp
@@ -34,8 +34,9 @@ unsigned int Scene::size_shapes() const
 void Scene::inherit_asset(const Asset* addme)
 {
     //unordered map to check in O(1) if the asset is duplicate upon addition
-    assets.insert(std::make_pair(addme->get_id(), addme));
-    k.addAsset(addme);
+    auto insert_res = assets.insert(std::make_pair(addme->get_id(), addme));
+    if(insert_res.second) //true if it was added
+        k.addAsset(addme);
 }
 
 unsigned int Scene::size_assets() const
-- 
2.43.0


From 3fee03bc8c9e675369aa19983396889928f1ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 20/80] fix: unfiltered texture lookups return the texel
 containing the coordinate

---
 src/textures/image_map.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 1c41184..378daa8 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -106,8 +106,9 @@ ImageMap::~ImageMap()
 TexelUnion ImageMapUnfiltered::filter(float u, float v, float, float,
                                       float, float) const
 {
-    uint16_t x = (uint16_t)(u*side[0]-0.5f);
-    uint16_t y = (uint16_t)(v*side[0]-0.5f);
+    //texel whose cell contains the value, borders belong to the lower texel
+    int x = max((int)ceilf(u*side[0])-1, 0);
+    int y = max((int)ceilf(v*side[0])-1, 0);
     return MIPmap[0]->get(x, y);
 }
 
-- 
2.43.0


From 502b8aa435c8ed9f052587eb6936e0f10d43430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 21/80] fix: wrap negative texture coordinates

---
 src/textures/texture_image.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index e3b03b5..b333e45 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -62,10 +62,10 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
     float v = hit->uv.y*scale.y+shift.y;
 
     //apply repeating if uv are outside 0-1 range
-    if(u>1.f)
-        u = u-(int)u;
-    if(v>1.f)
-        v = v-(int)v;
+    if(u<0.f || u>1.f)
+        u = u-floorf(u);
+    if(v<0.f || v>1.f)
+        v = v-floorf(v);
 
     TexelUnion res;
     if(unfiltered)
-- 
2.43.0


From 921934a7204a512fb984cfe2fdef51b8c6e8cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 22/80] fix: scale the texture differentials by the scale of
 their own coordinate

---
 src/textures/texture_image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index b333e45..eee6c6a 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -78,8 +78,8 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
         {
             //scale dudx dvdx dudy dvdy
             float dudx = hit->du.x*scale.x;
-            float dudy = hit->du.y*scale.y;
-            float dvdx = hit->dv.x*scale.x;
+            float dudy = hit->du.y*scale.x;
+            float dvdx = hit->dv.x*scale.y;
             float dvdy = hit->dv.y*scale.y;
             res = imagemap->filter(u, v, dudx, dvdx, dudy, dvdy);
         }
-- 
2.43.0


From 3eca36ebc6108ddad3099a99ed16117bfc6e192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 23/80] fix: do not read past the last level of a texture
 pyramid

---
 src/textures/image_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 378daa8..555a076 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -125,7 +125,7 @@ TexelUnion ImageMapTrilinear::filter(float u, float v, float dudx, float dvdx,
     TexelUnion p0; //retval
     if(chosen<=0.f) //use full size map
         p0 = bilinear(u, v, 0);
-    else if(chosen>maps_no-1) //return the single, most distant pixel
+    else if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else //perform trilinear interpolation
     {
@@ -180,7 +180,7 @@ TexelUnion ImageMapEWA::filter(float u, float v, float dudx, float dvdx,
     // shorter axis 0 previously catched in an if
     float chosen = max(0.f, maps_no-1+log2f(shorter_axis));
     TexelUnion p0; //retval
-    if(chosen>maps_no-1) //return the single, most distant pixel
+    if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else
     {
-- 
2.43.0


From 42bef5528b9d99133227eb818fb22727f7bb06aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 24/80] fix: interpolate with the opposite border before the
 first texel

---
 src/textures/image_map.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 555a076..9f98513 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -209,15 +209,20 @@ TexelUnion ImageMap::bilinear(float u, float v, uint8_t level) const
 {
     u = u*side[level]-0.5f;
     v = v*side[level]-0.5f;
-    int x = (int)u;
-    int y = (int)v;
-    float decimal_u = fabsf(u-x); //to avoid corner case where this can be -0.5f
-    float decimal_v = fabsf(v-y);
+    int x = (int)floorf(u);
+    int y = (int)floorf(v);
+    float decimal_u = u-x;
+    float decimal_v = v-y;
     float int_u = 1.f-decimal_u;
     float int_v = 1.f-decimal_v;
     //wraps texture if filtering happens outside bounds (val+1) = out of texture
     int next_x = (x+1)<=side[level]-1?(x+1):0;
     int next_y = (y+1)<=side[level]-1?(y+1):0;
+    //-0.5 is before the first texel
+    if(x<0)
+        x = side[level]-1;
+    if(y<0)
+        y = side[level]-1;
     const Texel T0 = MIPmap[level]->get(x, y).bgra_texel;
     const Texel T1 = MIPmap[level]->get(next_x, y).bgra_texel;
     const Texel T2 = MIPmap[level]->get(x, next_y).bgra_texel;
-- 
2.43.0


From 2124649926fdbc4803c12a5554a902328545d77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 25/80] fix: typo in the ellipse of the EWA filter

---
 src/textures/image_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 9f98513..6d64319 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -253,7 +253,7 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     dvdy *= side[level];
 
     //calulate ellipse coefficients
-    float a = dvdx*dvdx*+dvdy*dvdy+1.f;
+    float a = dvdx*dvdx+dvdy*dvdy+1.f;
     float b = -2.f*(dudx*dvdx+dudy*dvdy);
     float c = dudx*dudx+dudy*dudy+1.f;
     const float invf = 1.f/(a*c-b*b*.25f);
-- 
2.43.0


From 880b2d1697a3989e02d3c754a264cff9915b396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 26/80] fix: weigh wrapped texels by their distance in the EWA
 filter

---
 src/textures/image_map.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 6d64319..f7f7ed9 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -280,13 +280,17 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     for(int y = v0; y<=v1; y++)
     {
         //wraps texture if ellipse is outside bounds
-        int newy = y<0?side[level]+y:y>side[level]-1?y%side[level]:y;
-        const float voff = newy-v;
+        int newy = y%side[level];
+        if(newy<0)
+            newy += side[level];
+        const float voff = y-v;
         for(int x = u0; x<=u1; x++)
         {
             //wraps texture if ellipse is outside bounds
-            int newx = x<0?side[level]+x:x>side[level]-1?x%side[level]:x;
-            const float uoff = newx-u;
+            int newx = x%side[level];
+            if(newx<0)
+                newx += side[level];
+            const float uoff = x-u;
             const float radius2 = a*uoff*uoff+b*voff*uoff+c*voff*voff;
             if(radius2<1.f)
             {
-- 
2.43.0


From 66939b4b4c6fb259a212c56953641394c3353bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 27/80] fix: cache of the occlusion tester read and written
 past its end

Paths survive more than DEFAULT_BOUNCES bounces.
---
 src/utility/occlusion_tester.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/occlusion_tester.cpp b/src/utility/occlusion_tester.cpp
index b8c8a1c..bbaec3a 100644
--- a/src/utility/occlusion_tester.cpp
+++ b/src/utility/occlusion_tester.cpp
@@ -14,7 +14,9 @@ bool OcclusionTester::is_occluded(const Ray* r, float distance)
 {
     HitPoint removeme;
     float newdistance = FLT_MAX;
-    const Asset* lhit = OcclusionTester::lasthit[r->ricochet];
+    //paths longer than the cache share the last slot
+    const int slot = r->ricochet<DEFAULT_BOUNCES?r->ricochet:DEFAULT_BOUNCES-1;
+    const Asset* lhit = OcclusionTester::lasthit[slot];
     if(lhit != NULL)
         if(lhit->intersect(r, &newdistance, &removeme))
         {
@@ -23,7 +25,7 @@ bool OcclusionTester::is_occluded(const Ray* r, float distance)
         }
     if(scene->k.intersect(r, &removeme))
     {
-        OcclusionTester::lasthit[r->ricochet] = removeme.asset_h;
+        OcclusionTester::lasthit[slot] = removeme.asset_h;
         newdistance = removeme.point_h.distance(r->origin);
         return newdistance+OCCLUSION_INTERSECT_ERROR<distance;
     }
-- 
2.43.0


From 2e56146c5f93d0dd2797dae4f9ebe262c8e0899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 28/80] fix: masks met by shadow rays used uninitialised
 differentials

---
 src/utility/occlusion_tester.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility/occlusion_tester.cpp b/src/utility/occlusion_tester.cpp
index bbaec3a..8f47151 100644
--- a/src/utility/occlusion_tester.cpp
+++ b/src/utility/occlusion_tester.cpp
@@ -13,6 +13,7 @@ OcclusionTester::OcclusionTester(const Scene* scene)
 bool OcclusionTester::is_occluded(const Ray* r, float distance)
 {
     HitPoint removeme;
+    removeme.differentials = false; //shadow rays carry none
     float newdistance = FLT_MAX;
     //paths longer than the cache share the last slot
     const int slot = r->ricochet<DEFAULT_BOUNCES?r->ricochet:DEFAULT_BOUNCES-1;
-- 
2.43.0


From ac28afc1541c3b16ed181605eca15bdf22c007a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 29/80] fix: masked sphere accepted its second hit past a
 closer object

---
 src/primitives/sphere.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/sphere.cpp b/src/primitives/sphere.cpp
index 6a60ac3..2497ef3 100644
--- a/src/primitives/sphere.cpp
+++ b/src/primitives/sphere.cpp
@@ -118,6 +118,8 @@ bool Sphere::intersect(const Ray* r, float* distance, HitPoint* hit,
         }
         else if(!std::isnan(sol2))
         {
+            if(*distance<sol2)//better intersection already found
+                return false;
             //repeat the procedure with second hit, first was invalidated
             hitp = r->apply(sol2);
             tmp.point_h = hitp;
-- 
2.43.0


From 94f64b4b0d898be39ad9c4507f824072aefaa277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 30/80] fix: wrong differential passed to the mask of a
 triangle

---
 src/primitives/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/triangle.cpp b/src/primitives/triangle.cpp
index 9416495..f25d693 100644
--- a/src/primitives/triangle.cpp
+++ b/src/primitives/triangle.cpp
@@ -101,7 +101,7 @@ bool Triangle::intersect(const Ray* r, float* distance, HitPoint* h,
     tmp.uv.x = w*a.t.x+u*b.t.x+v*c.t.x;
     tmp.uv.y = w*a.t.y+u*b.t.y+v*c.t.y;
     tmp.du = h->du;
-    tmp.dv = h->du;
+    tmp.dv = h->dv;
     tmp.differentials = h->differentials;
     if(!mask->is_masked(&tmp))
     {
-- 
2.43.0


From 0f47f4c7b21b380ac134b8471cbb4547ab25407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 31/80] fix: lights sampled in object space

Distance, direction and pdf of a sample were those of the untransformed light.
---
 src/lights/area_light.cpp | 65 +++++++++++++++------------------------
 1 file changed, 24 insertions(+), 41 deletions(-)

diff --git a/src/lights/area_light.cpp b/src/lights/area_light.cpp
index 1b54aa1..45274fa 100644
--- a/src/lights/area_light.cpp
+++ b/src/lights/area_light.cpp
@@ -59,41 +59,34 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
                                   Vec3* wi, float* pdf, float* distance) const
 {
     Normal normal;
-    Point3 light_point; //object space
-    Ray ray;
-    ray.origin = worldToObj**pos;
+    Point3 light_point;
 
     //generate random origin point of the emitted radiance in the surface of the
     //underlying model of the light
     AreaLight::model->sample_point(r0, r1, cd, &light_point, &normal);
+    light_point = AreaLight::objToWorld*light_point;
 
     //in the next steps a ray originating from the current_pos and pointing to
     //the sampled point is tested against the light. This because if the sampled
     //point is on the backface, a point facing the current_pos is selected
+    Ray ray;
+    ray.origin = *pos;
     ray.direction = light_point-ray.origin;
     ray.direction.normalize();
     HitPoint hit;
+    hit.differentials = false;
     *distance = FLT_MAX;
-    //will always succeed
-//    bool res=
-    AreaLight::model->intersect(&ray, distance, &hit, &mask);
-    //erase the next if after all the intersections are tried
-    //TODO: now this should never happen and has been commented. Tried
-    //blackbox testing for something like 1 hour, but maybe for newer
-    //shapes this could generate problems so it is left here as a reference
-//    if(!res)
-//    {
-//        bool res=AreaLight::model->intersect(&ray,distance,&hit);
-//        *pdf = 0;
-//        return SPECTRUM_BLACK;
-//    }
-    light_point = ray.apply(*distance);
-    normal = hit.normal_h; //object space
     *wi = ray.direction;
-    *pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
-           (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
-           (ray.origin.z-light_point.z)*(ray.origin.z-light_point.z);
-    *pdf /= (absdot(normal, -(*wi))*AreaLight::area);
+    //the sampled point may be masked, or missed because of flt precision
+    if(!intersect(&ray, distance, &hit))
+    {
+        *pdf = 0;
+        *distance = FLT_MAX;
+        return SPECTRUM_BLACK;
+    }
+    //world space, as the area
+    *pdf = *distance**distance/
+           (absdot(hit.normal_h, -(*wi))*AreaLight::area);
     if(std::isinf(*pdf))
     {
         *pdf = 0;
@@ -101,36 +94,26 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
         return SPECTRUM_BLACK;
     }
 
-    //convert wi to world space
-    Spectrum retval;
-    if(dot(normal, -(*wi))>0) //cos between ray and hit point normal > 0
-        retval = AreaLight::c;
+    if(dot(hit.normal_h, -(*wi))>0) //cos between ray and hit point normal > 0
+        return AreaLight::c;
     else
-        retval = SPECTRUM_BLACK;
-
-    *wi = AreaLight::objToWorld**wi;
-    wi->normalize();
-    return retval;
+        return SPECTRUM_BLACK;
 }
 
 float AreaLight::pdf(const Point3* p, const Vec3* wi) const
 {
     Ray ray;
-    ray.origin = AreaLight::worldToObj**p;
-    ray.direction = AreaLight::worldToObj**wi;
+    ray.origin = *p;
+    ray.direction = *wi;
     HitPoint hit;
+    hit.differentials = false;
     float distance = FLT_MAX;
     //here success is not guaranteed, maybe the wi vector is random
     //need to check if the intersection can happen
-    bool res = AreaLight::model->intersect(&ray, &distance, &hit, &mask);
-    if(!res)
+    if(!intersect(&ray, &distance, &hit))
         return 0;
-    Point3 light_point = ray.apply(distance);
-    float pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
-                (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
-                (ray.origin.z-light_point.z)*(ray.origin.z-light_point.z);
-    pdf /= (absdot(hit.normal_h, -(ray.direction))*AreaLight::area);
-    return pdf;
+    //world space, as the area
+    return distance*distance/(absdot(hit.normal_h, -(*wi))*AreaLight::area);
 }
 
 float AreaLight::pdf(const Ray*) const
-- 
2.43.0


From 5d64180fe953836d3c91cdcec2adbf9a5482cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:20 +0000
Subject: [PATCH 32/80] fix: sampled lobes of a MultiBSDF all coloured as the
 chosen one

---
 src/materials/multi_bsdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index dd73f5d..190067c 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -121,7 +121,7 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
             if(bdfs[i]->matches(flags))//add contribution only if matches
             {
                 retval += bdfs[i]->value(&wo_shading, &wi_shading)*
-                          diffuse[chosen]->map(h);
+                          diffuse[i]->map(h);
                 *pdf += bdfs[i]->pdf(&wo_shading, &wi_shading);
             }
         }
-- 
2.43.0


From 76540db39418c95c3c2fb8a5c0084bb11fa4ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:20 +0000
Subject: [PATCH 33/80] fix: MultiBSDF density counted lobes of the other side
 of the surface

---
 src/materials/multi_bsdf.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index 190067c..ac3eee1 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -137,13 +137,14 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
 }
 
 float
-MultiBSDF::pdf(const Vec3* woW, const HitPoint*, const ShadingSpace* matrix,
+MultiBSDF::pdf(const Vec3* woW, const HitPoint* h, const ShadingSpace* matrix,
                const Vec3* wiW, bool matchSpec) const
 {
     if(MultiBSDF::count == 0)
         return 0.f;
     char flags = matchSpec?FLAG_BRDF | FLAG_BTDF | FLAG_SPEC:FLAG_BRDF |
                                                              FLAG_BTDF;
+    const bool reflected = wiW->dot(h->normal_h)*woW->dot(h->normal_h)>0;
     float pdf = 0.f;
     int matching = 0;
     Vec3 wo_shading = matrix->to_shading(*woW);
@@ -153,7 +154,9 @@ MultiBSDF::pdf(const Vec3* woW, const HitPoint*, const ShadingSpace* matrix,
         if(bdfs[i]->matches(flags))
         {
             matching++;
-            pdf += bdfs[i]->pdf(&wo_shading, &wi_shading);
+            //as in value and sample_value, only the lobes of this side answer
+            if(bdfs[i]->is_BRDF() == reflected)
+                pdf += bdfs[i]->pdf(&wo_shading, &wi_shading);
         }
     }
     return matching>1?pdf/(float)matching:pdf; //prevent division by 0
-- 
2.43.0


From 2e51707ed5d7cfc12d1dfd8459be29caac5643d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 34/80] fix: sampling a MultiBSDF without lobes read an invalid
 lobe

---
 src/materials/multi_bsdf.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index ac3eee1..14f0d0a 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -67,18 +67,18 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
         for(int i = 0; i<MultiBSDF::count; i++)
             if(!(MultiBSDF::bdfs[i]->is_specular()))
                 matching[matchcount++] = bdfs[i];
-        if(matchcount == 0)
-        {
-            //otherwise it will access invalid array positions
-            *pdf = 0.f;
-            return SPECTRUM_BLACK;
-        }
     }
     else
     {
         for(int i = 0; i<MultiBSDF::count; i++)
             matching[matchcount++] = bdfs[i];
     }
+    if(matchcount == 0)
+    {
+        //otherwise it will access invalid array positions
+        *pdf = 0.f;
+        return SPECTRUM_BLACK;
+    }
 
     int chosen = (int)(r0*matchcount);
     if(chosen == matchcount) //out of array
-- 
2.43.0


From ce655523d3caaddd0df6127a8820d63a94f80c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 35/80] fix: inverted weight of the paths surviving russian
 roulette

A path is terminated with probability term, hence the remaining ones
weigh 1/(1-term).
---
 src/integrators/path_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/path_tracer.cpp b/src/integrators/path_tracer.cpp
index 6f19314..3ea0b91 100644
--- a/src/integrators/path_tracer.cpp
+++ b/src/integrators/path_tracer.cpp
@@ -44,7 +44,7 @@ Spectrum PathTracer::l_rec(const Scene* sc, const HitPoint* hp, const Ray* r,
         if(rand[0]<term)
             return retval;
         else
-            rrprob = term; //survived russian roulette, need to cut down contrib
+            rrprob = 1.f/(1.f-term); //survived, stands also for the lost ones
     }
     if(r->ricochet == DEFAULT_BOUNCES)
         return retval;
-- 
2.43.0


From 71a4197d0c431bb85a81904ed35e2f698edd9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 36/80] fix: emission of lights counted twice by the path
 tracer

l_rec already adds it where it was not sampled directly.
---
 src/integrators/ray_tracer.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 163d0a9..112ae2a 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -10,9 +10,6 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
 {
     Spectrum L = SPECTRUM_BLACK;
     int nlights = sc->size_lights();
-    if(hp->asset_h->is_light())
-        if(dot(*normal_s, -r->direction)>0)
-            L += ((AreaLight*)hp->asset_h)->emissive_spectrum();
     if(nlights>0)
     {
         float rand[6];
-- 
2.43.0


From 8dc73cffe08258eb7f88093068d374f2b8376efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 37/80] fix: masks met by rays towards lights used
 uninitialised differentials

---
 src/integrators/ray_tracer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 112ae2a..6d949d2 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -60,6 +60,7 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
             //here the shading point could lead to wrong intersections
             Ray r2(*point_s, wi);
             HitPoint h2;
+            h2.differentials = false;
             if(sc->k.intersect(&r2, &h2))
                 if(h2.asset_h->get_id() == light->get_id())
                     if(dot(h2.normal_h, -r2.direction)>0)
-- 
2.43.0


From c27e933c5d4962a0bd8b3ab43801098f70634246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 38/80] fix: direct light divided by the number of lights

One light out of nlights is sampled.
---
 src/integrators/ray_tracer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 6d949d2..4948480 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -55,7 +55,7 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
             float w = 1.f; //weight
             lightpdf = light->pdf(point_s, &wi);
             if(lightpdf == 0)
-                return L; //no contribution from bsdf sampling
+                return L*(float)nlights; //no contribution from bsdf sampling
             w = (bsdfpdf*bsdfpdf)/(bsdfpdf*bsdfpdf+lightpdf*lightpdf);
             //here the shading point could lead to wrong intersections
             Ray r2(*point_s, wi);
@@ -70,5 +70,6 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
                     }
         }
     }
-    return L;
+    //the chosen light stands for all of them
+    return L*(float)nlights;
 }
-- 
2.43.0


From b50d6afab26b0d6af3c184c3cfd788a9722b3260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:56 +0000
Subject: [PATCH 39/80] fix: samples left unset when the stratified count is
 not a square

---
 src/samplers/sampler_stratified.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/samplers/sampler_stratified.cpp b/src/samplers/sampler_stratified.cpp
index 170d715..f2b2aa7 100644
--- a/src/samplers/sampler_stratified.cpp
+++ b/src/samplers/sampler_stratified.cpp
@@ -12,7 +12,10 @@ SamplerStratified::SamplerStratified(int startx, int endx, int starty, int endy,
     SamplerStratified::nexty = starty;
     SamplerStratified::randomized = rand;
     SamplerStratified::strata_x = (int)sqrtf((float)spp);
-    SamplerStratified::strata_y = SamplerStratified::strata_x;
+    //if spp is not a square use the closest grid with spp cells
+    while(strata_x>1 && spp%strata_x != 0)
+        strata_x--;
+    SamplerStratified::strata_y = spp/strata_x;
 }
 
 bool SamplerStratified::get_samples(Sample* res)
-- 
2.43.0


From 859f218b8de5efc627e528ef627b4ff6d754a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 40/80] fix: neighbouring rays of the orthographic camera were
 not one pixel away

---
 src/cameras/camera_orthographic.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cameras/camera_orthographic.cpp b/src/cameras/camera_orthographic.cpp
index 219c1ba..100e744 100644
--- a/src/cameras/camera_orthographic.cpp
+++ b/src/cameras/camera_orthographic.cpp
@@ -63,15 +63,16 @@ CameraOrthographic::CameraOrthographic(const Point3* pos, const Point3* target,
     raster2camera *= screen2camera;
     raster2camera *= raster2screen;
     dx = raster2camera*Vec3(1, 0, 0);
-    dy = raster2camera*Vec3(0, -1, 0);
+    dy = raster2camera*Vec3(0, 1, 0);
 }
 
 void CameraOrthographic::create_ray(const Sample* spl, Ray* ray, Ray* rx,
                                     Ray* ry) const
 {
     ray->origin = raster2world*Point3(spl->posx, spl->posy, 0);
-    rx->origin = raster2world*Point3(spl->posx+dx.x, spl->posy+dx.y, dx.z);
-    ry->origin = raster2world*Point3(spl->posx+dy.x, spl->posy+dy.y, dy.z);
+    //dx and dy are one pixel, in camera space
+    rx->origin = ray->origin+camera2world*dx;
+    ry->origin = ray->origin+camera2world*dy;
     ray->direction = camera2world*Vec3(0, 0, 1);
     rx->direction = ray->direction;
     ry->direction = ray->direction;
-- 
2.43.0


From 1f6b7d7a87816b244b89b589ecb879fafc5fb49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:44 +0000
Subject: [PATCH 41/80] fix: rows of bitmaps not padded to a multiple of four
 bytes

---
 src/utility/imageio/bmp.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index 728896b..4861ca7 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -5,6 +5,12 @@
 
 #define BMP_MAGIC 19778
 
+/* bytes added to a row of pixels in order to reach a multiple of 4 */
+static int row_padding(int width, int bpp)
+{
+    return (4-(int)(((size_t)width*bpp)%4))%4;
+}
+
 uint32_t bmp_size(int width, int height, short bpp)
 {
     return sizeof(struct bmp_header)+
@@ -85,15 +91,15 @@ char bmp_write(const char* name, int width, int height, const uint32_t* data)
         struct bmp_header header;
         struct bmp_dib_v3 dib;
         char bpp;
-        char padding;
+        int padding;
         int x;
         int y;
         int data_idx = 0;
         uint8_t* row;
         create_bmp_header(width, height, &header, &dib);
         bpp = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
-        padding = (width*bpp)%4;
-        row = (uint8_t*)malloc(sizeof(uint8_t)*(bpp*width+padding));
+        padding = row_padding(width, bpp);
+        row = (uint8_t*)calloc(bpp*width+padding, sizeof(uint8_t));
         fwrite(&header, sizeof(struct bmp_header), 1, fout);
         fwrite(&dib, sizeof(struct bmp_dib_v3), 1, fout);
         for(y = 0; y<height; y++)
@@ -136,7 +142,7 @@ char bmp_read(const char* name, uint32_t* values)
             const int WIDTH = ENDIANNESS_LITTLE32(dib.width);
             const int BPP = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
             const char HAS_ALPHA = BPP == 4;
-            const char PADDING = (WIDTH*BPP)%4;
+            const int PADDING = row_padding(WIDTH, BPP);
             int y;
             int ymax;
             int x;
-- 
2.43.0


From 14020370e7104e3ef1089a60b00937fa72b2d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:44 +0000
Subject: [PATCH 42/80] fix: bitmaps with an empty, overflowing or OS/2 header
 crashed the reader

---
 src/utility/imageio/bmp.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index 4861ca7..0ea7914 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -11,6 +11,17 @@ static int row_padding(int width, int bpp)
     return (4-(int)(((size_t)width*bpp)%4))%4;
 }
 
+/* the size of the image must be positive (the height can be negated), and the
+ * header at least a V3 one, as the OS/2 one has different fields */
+static char dib_valid(const struct bmp_dib_v3* dib)
+{
+    const int32_t WIDTH = ENDIANNESS_LITTLE32(dib->width);
+    const int32_t HEIGHT = ENDIANNESS_LITTLE32(dib->height);
+    const uint32_t SIZE = ENDIANNESS_LITTLE32(dib->header_size);
+    return SIZE >= sizeof(struct bmp_dib_v3) && WIDTH > 0 &&
+           HEIGHT != 0 && HEIGHT != INT32_MIN;
+}
+
 uint32_t bmp_size(int width, int height, short bpp)
 {
     return sizeof(struct bmp_header)+
@@ -31,7 +42,8 @@ char bmp_valid(const char* name)
         if(retval)
         {
             res = fread(&dib, sizeof(struct bmp_dib_v3), 1, fin);
-            retval &= res && dib.compression == 0 && dib.palette_no == 0 &&
+            retval &= res && dib_valid(&dib) && dib.compression == 0 &&
+                      dib.palette_no == 0 &&
                       (dib.bpp == 24 || dib.bpp == 32);
         }
         fclose(fin);
@@ -51,7 +63,8 @@ char bmp_dimensions(const char* name, int* width, int* height)
         if(res)
         {
             res = fread(&dib, sizeof(struct bmp_dib_v3), 1, fin);
-            if(res && ENDIANNESS_LITTLE16(header.signature) == BMP_MAGIC)
+            if(res && ENDIANNESS_LITTLE16(header.signature) == BMP_MAGIC &&
+               dib_valid(&dib))
             {
                 *width = ENDIANNESS_LITTLE32(dib.width);
                 *height = ENDIANNESS_LITTLE32(dib.height);
@@ -134,7 +147,8 @@ char bmp_read(const char* name, uint32_t* values)
     {
         res = fread(&dib, sizeof(struct bmp_dib_v3), 1, fin);
         /* not v3 or other fancy features not supported */
-        if(res && dib.compression == 0 && dib.palette_no == 0 &&
+        if(res && dib_valid(&dib) &&
+           dib.compression == 0 && dib.palette_no == 0 &&
            (ENDIANNESS_LITTLE16(dib.bpp) == 24 ||
             ENDIANNESS_LITTLE16(dib.bpp) == 32))
         {
@@ -147,8 +161,8 @@ char bmp_read(const char* name, uint32_t* values)
             int ymax;
             int x;
             int increment = -height/abs(height);
-            int written = 0;
-            const int ROW_LEN = BPP*WIDTH+PADDING;
+            size_t written = 0;
+            const size_t ROW_LEN = (size_t)BPP*WIDTH+PADDING;
             uint8_t* row = (uint8_t*)malloc(ROW_LEN);
             if(increment<0)
             {
@@ -162,7 +176,7 @@ char bmp_read(const char* name, uint32_t* values)
                 y = 0;
             }
             fseek(fin, ENDIANNESS_LITTLE32(header.data_offset), SEEK_SET);
-            while(y != ymax && fread(row, BPP*WIDTH+PADDING, 1, fin))
+            while(row != NULL && y != ymax && fread(row, ROW_LEN, 1, fin))
             {
                 x = 0;
                 while(x<WIDTH)
@@ -175,14 +189,14 @@ char bmp_read(const char* name, uint32_t* values)
                     pixel |= row[x*BPP+2] << 8;
                     if(HAS_ALPHA)
                         pixel &= (row[x*BPP+3] | 0xFFFFFF00);
-                    values[y*WIDTH+x] = pixel;
+                    values[(size_t)y*WIDTH+x] = pixel;
                     x++;
                 }
                 written += WIDTH;
                 y += increment;
             }
             free(row);
-            retval = written == (height*WIDTH);
+            retval = written == (size_t)height*WIDTH;
         }
     }
     fclose(fin);
-- 
2.43.0


From b0bf087b353d13454d051a3687872b3006cf21a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 43/80] fix: raw packets of compressed TGA images decoded as
 single pixels, long runs overflowed

---
 src/utility/imageio/tga.c | 188 +++++++++++---------------------------
 1 file changed, 54 insertions(+), 134 deletions(-)

diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index 182962c..374312a 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -110,6 +110,29 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
     return retval;
 }
 
+/* extracts a 0xBBGGRRAA value from a pixel with the given number of bytes */
+static uint32_t unpack_pixel(const uint8_t* pixel, uint8_t bpp)
+{
+    uint32_t retval = 0x000000FF;
+    if(bpp == 2)
+    {
+        /* the shift is a multiplication by 8 */
+        /* used to map a value from 0-31 to 0-255 */
+        retval |= ((pixel[1] & 0x7C) << 1) << 8;
+        retval |= ((pixel[1] & 0x03) << 6 | (pixel[0] & 0xE0) >> 2) << 16;
+        retval |= (uint32_t)((pixel[0] & 0x1F) << 3) << 24;
+    }
+    else
+    {
+        if(bpp == 4)
+            retval = pixel[3]; /* Alpha */
+        retval |= pixel[2] << 8;  /* Red   */
+        retval |= pixel[1] << 16; /* Green */
+        retval |= (uint32_t)pixel[0] << 24; /* Blue  */
+    }
+    return retval;
+}
+
 char tga_read(const char* name, uint32_t* values)
 {
     char retval = 0;
@@ -128,153 +151,50 @@ char tga_read(const char* name, uint32_t* values)
         const char COMPRESSED = header.datatype_code == TGA_RGB_RLE;
         const int WIDTH = ENDIANNESS_LITTLE16(header.width);
         const int HEIGHT = ENDIANNESS_LITTLE16(header.height);
-        uint8_t pixel[5];
-        int x = 0;
-        int y = 0;
-        int ymax;
-        int increment;
-        int i;
+        const size_t TOTAL = (size_t)WIDTH*HEIGHT;
+        uint8_t pixel[4];
         const int SKIPME = header.id_len+header.colourmap_type*
                 ENDIANNESS_LITTLE16(header.colourmap_length);
-        int written = 0;
-        int rle;
-        if(header.img_descriptor & TGA_UPPER_ORIGIN) /* top-down */
-        {
-            increment = 1;
-            ymax = HEIGHT;
-            y = 0;
-        }
-        else
-        {
-            increment = -1;
-            ymax = -1;
-            y = HEIGHT-1;
-        }
+        size_t written = 0;
+        int x = 0;
+        int y = header.img_descriptor & TGA_UPPER_ORIGIN?0:HEIGHT-1;
+        const int INCREMENT = header.img_descriptor & TGA_UPPER_ORIGIN?1:-1;
+        size_t count;
+        uint8_t packet = 0;
+        char readable = 1;
         fseek(fin, SKIPME, SEEK_CUR); /* I don't care about these features */
-        while(y != ymax)
+        while(readable && written<TOTAL)
         {
-            i = y*WIDTH;
-            x = 0;
-            while(x<WIDTH && fread(&pixel, BPP+COMPRESSED, 1, fin))
+            count = TOTAL;
+            if(COMPRESSED)
             {
-                if(!COMPRESSED)
+                /* RLE packet, repeating the next pixel, or raw packet */
+                readable = fread(&packet, 1, 1, fin) == 1;
+                count = 1+(packet & 0x7F);
+                if(count>TOTAL-written) /* corrupted */
+                    readable = 0;
+                if(packet & 0x80)
+                    readable = readable && fread(&pixel, BPP, 1, fin) == 1;
+            }
+            while(readable && count>0)
+            {
+                if(!(packet & 0x80))
+                    readable = fread(&pixel, BPP, 1, fin) == 1;
+                if(readable)
                 {
-                    if(BPP == 3) /* 24 bit no RLE */
-                    {
-                        values[i] = 0x000000FF;
-                        values[i] |= pixel[2] << 8;  /* Red   */
-                        values[i] |= pixel[1] << 16; /* Green */
-                        values[i] |= pixel[0] << 24; /* Blue  */
-                    }
-                    else if(BPP == 4) /* 32 bit no RLE */
-                    {
-                        values[i] = 0x00000000;
-                        values[i] |= pixel[3] << 0;  /* Alpha */
-                        values[i] |= pixel[2] << 8;  /* Red   */
-                        values[i] |= pixel[1] << 16; /* Green */
-                        values[i] |= pixel[0] << 24; /* Blue  */
-                    }
-                    else /* 16 bit no RLE */
-                    {
-                        values[i] = 0x000000FF;
-                        /* the shift is a multiplication by 8 */
-                        /* used to map a value from 0-31 to 0-255 */
-                        values[i] |= ((pixel[1] & 0x7C) << 1) << 8;
-                        values[i] |= ((pixel[1] & 0x03) << 6 |
-                                      (pixel[0] & 0xE0) >> 2) << 16;
-                        values[i] |= ((pixel[0] & 0x1F) << 3) << 24;
-                    }
-                    i++;
+                    values[(size_t)y*WIDTH+x] = unpack_pixel(pixel, BPP);
                     written++;
+                    count--;
                     x++;
-                }
-                else /* RLE compression */
-                {
-                    if(pixel[0] & 0x80) /* RLE */
+                    if(x == WIDTH) /* wrap line */
                     {
-                        int rle_len = 1+(pixel[0] & 0x7F);
-                        for(rle = 0; rle<rle_len; rle++)
-                        {
-                            if(BPP == 3) /* 24 bit no RLE */
-                            {
-                                values[i] = 0x000000FF;
-                                values[i] |= pixel[3] << 8;  /* Red   */
-                                values[i] |= pixel[2] << 16; /* Green */
-                                values[i] |= pixel[1] << 24; /* Blue  */
-                            }
-                            else if(BPP == 4) /* 32 bit no RLE */
-                            {
-                                values[i] = 0x00000000;
-                                values[i] |= pixel[4] << 0;  /* Alpha */
-                                values[i] |= pixel[3] << 8;  /* Red   */
-                                values[i] |= pixel[2] << 16; /* Green */
-                                values[i] |= pixel[1] << 24; /* Blue  */
-                            }
-                            else /* 16 bit no RLE */
-                            {
-                                values[i] = 0x000000FF;
-                                /* the shift is a multiplication by 8 */
-                                /* used to map a value from 0-31 to 0-255 */
-                                values[i] |= ((pixel[2] & 0x7C) << 1) << 8;
-                                values[i] |= ((pixel[2] & 0x03) << 6 |
-                                              (pixel[1] & 0xE0) >> 2) << 16;
-                                values[i] |= ((pixel[1] & 0x1F) << 3) << 24;
-                            }
-                            i++;
-                            written++;
-                            x++;
-                            if(x == WIDTH) /* wrap line */
-                            {
-                                y += increment;
-                                if(y == ymax) /* endgame */
-                                {
-                                    /* set condition to break both loops */
-                                    y = ymax-increment;
-                                    x = WIDTH;
-                                }
-                                else
-                                    x = 0;
-                                i = y*WIDTH;
-                            }
-                        }
+                        x = 0;
+                        y += INCREMENT;
                     }
-                    else /* normal */
-                    {
-                        if(BPP == 3) /* 24 bit no RLE */
-                        {
-                            values[i] = 0x000000FF;
-                            values[i] |= pixel[3] << 8;  /* Red   */
-                            values[i] |= pixel[2] << 16; /* Green */
-                            values[i] |= pixel[1] << 24; /* Blue  */
-                        }
-                        else if(BPP == 4) /* 32 bit no RLE */
-                        {
-                            values[i] = 0x00000000;
-                            values[i] |= pixel[4] << 0;  /* Alpha */
-                            values[i] |= pixel[3] << 8;  /* Red   */
-                            values[i] |= pixel[2] << 16; /* Green */
-                            values[i] |= pixel[1] << 24; /* Blue  */
-                        }
-                        else /* 16 bit no RLE */
-                        {
-                            values[i] = 0x000000FF;
-                            /* the shift is a multiplication by 8 */
-                            /* used to map a value from 0-31 to 0-255 */
-                            values[i] |= ((pixel[2] & 0x7C) << 1) << 8;
-                            values[i] |= ((pixel[2] & 0x03) << 6 |
-                                          (pixel[1] & 0xE0) >> 2) << 16;
-                            values[i] |= ((pixel[1] & 0x1F) << 3) << 24;
-                        }
-                        x++;
-                        written++;
-                        i++;
-                    }
-
                 }
             }
-            y += increment;
         }
-        retval = WIDTH*HEIGHT == written;
+        retval = TOTAL>0 && written == TOTAL;
     }
     fclose(fin);
     return retval;
-- 
2.43.0


From 6d8a3093eab570d4a5ed14f10d3324170c1b2547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 44/80] fix: TGA images with an empty or too big size

---
 src/utility/imageio/tga.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index 374312a..5d5a2d3 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -35,6 +35,7 @@ static char valid_header(struct tga_header* header)
                header->bpp == 16 || header->bpp == 15);
     retval &= header->colourmap_type == 0;
     retval &= descriptor == 0 || descriptor == TGA_UPPER_ORIGIN;
+    retval &= header->width != 0 && header->height != 0;
     return retval;
 }
 
@@ -75,7 +76,11 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
 {
     const char BPP = 3;
     char retval = 0;
-    FILE* fout = fopen(name, "wb");
+    FILE* fout;
+    /* the size is stored with 16 bits */
+    if(width<1 || width>0xFFFF || height<1 || height>0xFFFF)
+        return 0;
+    fout = fopen(name, "wb");
     if(fout != NULL)
     {
         struct tga_header header;
-- 
2.43.0


From 1eb8bad2e6322e6300cd443b9bd1dded924ca78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:56 +0000
Subject: [PATCH 45/80] fix: truncated, empty or commented PPM images misread

---
 src/utility/imageio/ppm.c | 120 ++++++++++++++++++++++++--------------
 1 file changed, 76 insertions(+), 44 deletions(-)

diff --git a/src/utility/imageio/ppm.c b/src/utility/imageio/ppm.c
index b6595b0..f5f2ffd 100644
--- a/src/utility/imageio/ppm.c
+++ b/src/utility/imageio/ppm.c
@@ -5,6 +5,50 @@
 
 #define CLAMP(x, y, z) ((x)<0)?0:(x)>(z)?(z):(x)
 
+/* reads a positive number not higher than max, after spaces and comments */
+static char read_number(FILE* fin, unsigned int max, unsigned int* number)
+{
+    unsigned int digits = 0;
+    int c = fgetc(fin);
+    *number = 0;
+    while(c == ' ' || (c>='\t' && c<='\r') || c == '#')
+    {
+        if(c == '#') /* up to the end of the line */
+            while(c != '\n' && c != '\r' && c != EOF)
+                c = fgetc(fin);
+        c = fgetc(fin);
+    }
+    while(c>='0' && c<='9' && *number<=(max-(c-'0'))/10)
+    {
+        *number = *number*10+(c-'0');
+        digits++;
+        c = fgetc(fin);
+    }
+    /* the next character is not part of the number */
+    if(c != EOF)
+        ungetc(c, fin);
+    return digits>0 && (c<'0' || c>'9');
+}
+
+/* reads the header, up to the last digit of the depth */
+static char read_header(FILE* fin, char* type, int* width, int* height,
+                        uint16_t* depth)
+{
+    unsigned int values[3];
+    char magic[2];
+    if(fread(magic, 1, 2, fin) != 2 || magic[0] != 'P' ||
+       (magic[1] != '3' && magic[1] != '6') ||
+       !read_number(fin, INT32_MAX, values+0) || values[0] == 0 ||
+       !read_number(fin, INT32_MAX, values+1) || values[1] == 0 ||
+       !read_number(fin, UINT16_MAX, values+2) || values[2] == 0)
+        return 0;
+    *type = magic[1];
+    *width = (int)values[0];
+    *height = (int)values[1];
+    *depth = (uint16_t)values[2];
+    return 1;
+}
+
 char ppm_write(const char* name, int width, int height, const uint32_t* array)
 {
     FILE* fout = fopen(name, "wb");
@@ -35,13 +79,9 @@ char ppm_dimensions(const char* name, int* width, int* height)
     char retval = 0;
     if(fin != NULL)
     {
-        char magic[2];
-        fscanf(fin, "%c%c", magic+0, magic+1);
-        if(magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6'))
-        {
-            fscanf(fin, "%d%d", width, height);
-            retval = 1;
-        }
+        char type;
+        uint16_t depth;
+        retval = read_header(fin, &type, width, height, &depth);
         fclose(fin);
     }
     return retval;
@@ -54,9 +94,9 @@ char ppm_valid(const char* name)
     if(fin != NULL)
     {
         char magic[2];
-        fscanf(fin, "%c%c", magic+0, magic+1);
+        retval = fread(magic, 1, 2, fin) == 2 && magic[0] == 'P' &&
+                 (magic[1] == '3' || magic[1] == '6');
         fclose(fin);
-        retval = magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6');
     }
     return retval;
 }
@@ -67,61 +107,53 @@ char ppm_read(const char* name, uint32_t* values)
     char retval = 0;
     if(fin != NULL)
     {
-        char magic[2];
+        char type;
         uint8_t red;
         uint8_t green;
         uint8_t blue;
-        fscanf(fin, "%c%c", magic+0, magic+1);
+        int width;
+        int height;
+        uint16_t depth_short;
         /* check magic number to determine if ASCII or binary */
-        if(magic[0] == 'P')
+        if(read_header(fin, &type, &width, &height, &depth_short))
         {
-            unsigned int width;
-            unsigned int height;
-            float depth;
-            uint16_t depth_short;
-            fscanf(fin, "%u%u%hu", &width, &height, &depth_short);
-            /* not my fucking problem if the depth is > 65536, the specification
-             states that the aforementioned value is the max */
-            depth = (float)depth_short;
-            if(magic[1] == '3') /* ASCII */
+            const size_t TOTAL = (size_t)width*height;
+            float depth = (float)depth_short;
+            if(type == '3') /* ASCII */
             {
-                char val[6];
-                uint16_t num_val;
-                unsigned int i;
-                for(i = 0; i<width*height; i++)
+                unsigned int num_val;
+                size_t i;
+                retval = 1;
+                for(i = 0; retval && i<TOTAL; i++)
                 {
                     values[i] = 0x000000FF;
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
+                    retval &= read_number(fin, UINT16_MAX, &num_val);
                     red = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
+                    retval &= read_number(fin, UINT16_MAX, &num_val);
                     green = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
+                    retval &= read_number(fin, UINT16_MAX, &num_val);
                     blue = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
                     values[i] |= red << 8;
                     values[i] |= green << 16;
                     values[i] |= blue << 24;
                 }
-                retval = 1;
             }
-            else if(magic[1] == '6') /* Binary */
+            else /* Binary */
             {
-                unsigned int x = 0;
-                unsigned int y = 0;
-                unsigned int row_idx = 0;
-                unsigned int output_idx = 0;
+                int x = 0;
+                int y = 0;
+                size_t row_idx = 0;
+                size_t output_idx = 0;
                 /* skip 1 space, after the depth
                    by specification this will ALWAYS be ONE space or newline
                    so no \n\r or other windows shits */
                 fseek(fin, 1, SEEK_CUR);
                 if(depth_short<=255)/* 1 byte per component */
                 {
-                    uint8_t* row = (uint8_t*)malloc(sizeof(uint8_t)*width*3);
+                    uint8_t* row = (uint8_t*)malloc(sizeof(uint8_t)*3*width);
                     /* read a pixel block of READ_BUFFER size */
-                    while(y<height &&
-                          fread(row, sizeof(uint8_t)*(width*3), 1, fin))
+                    while(row != NULL && y<height &&
+                          fread(row, sizeof(uint8_t)*3*width, 1, fin))
                     {
                         row_idx = 0;
                         x = 0;
@@ -142,10 +174,10 @@ char ppm_read(const char* name, uint32_t* values)
                 }
                 else/* 2 bytes per component, high depth */
                 {
-                    uint16_t* row = (uint16_t*)malloc(sizeof(uint16_t)*width*3);
+                    uint16_t* row = (uint16_t*)malloc(sizeof(uint16_t)*3*width);
                     /* read a pixel block of READ_BUFFER size */
-                    while(y<height &&
-                          fread(row, sizeof(uint16_t)*(width*3), 1, fin))
+                    while(row != NULL && y<height &&
+                          fread(row, sizeof(uint16_t)*3*width, 1, fin))
                     {
                         row_idx = 0;
                         x = 0;
@@ -171,7 +203,7 @@ char ppm_read(const char* name, uint32_t* values)
                     }
                     free(row);
                 }
-                retval = output_idx == width*height;
+                retval = output_idx == TOTAL;
             }
         }
         fclose(fin);
-- 
2.43.0


From 72a29b89e46ad02f0d1e6e36b13a87d75af6769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:56 +0000
Subject: [PATCH 46/80] fix: colours of PPM images rounded down, clamped to
 black or read from one byte of two

---
 src/utility/imageio/endianness.h |  6 ++++--
 src/utility/imageio/ppm.c        | 31 +++++++++++++++++--------------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/utility/imageio/endianness.h b/src/utility/imageio/endianness.h
index 952d8e0..b433540 100644
--- a/src/utility/imageio/endianness.h
+++ b/src/utility/imageio/endianness.h
@@ -11,7 +11,8 @@
 !defined(IS_BIG_ENDIAN)
 #define ENDIANNESS_LITTLE16(value) value
 #define ENDIANNESS_LITTLE32(value) value
-#define ENDIANNESS_BIG16(value) ((value & 0xFF) >> 8) | (value << 8)
+#define ENDIANNESS_BIG16(value) ((((value) & 0xFF00) >> 8) | \
+                                        (((value) & 0x00FF) << 8))
 #define ENDIANNESS_BIG32(value) ((value & 0xFF000000) >> 24) | \
                                        ((value & 0x00FF0000) >> 8) | \
                                        ((value & 0x0000FF00) << 8) | \
@@ -19,7 +20,8 @@
 #elif __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
 #define ENDIANNESS_BIG16(value) value
 #define ENDIANNESS_BIG32(value) value
-#define ENDIANNESS_LITTLE16(value) ((value & 0xFF) >> 8) | (value << 8)
+#define ENDIANNESS_LITTLE16(value) ((((value) & 0xFF00) >> 8) | \
+                                        (((value) & 0x00FF) << 8))
 #define ENDIANNESS_LITTLE32(value) ((value & 0xFF000000) >> 24) | \
                                        ((value & 0x00FF0000) >> 8) | \
                                        ((value & 0x0000FF00) << 8) | \
diff --git a/src/utility/imageio/ppm.c b/src/utility/imageio/ppm.c
index f5f2ffd..91a8499 100644
--- a/src/utility/imageio/ppm.c
+++ b/src/utility/imageio/ppm.c
@@ -3,7 +3,11 @@
 
 #include "ppm.h"
 
-#define CLAMP(x, y, z) ((x)<0)?0:(x)>(z)?(z):(x)
+/* maps a value in [0, depth] to the nearest one in [0, 255] */
+static uint8_t to_byte(unsigned int value, unsigned int depth)
+{
+    return value<depth?(uint8_t)((value*255U+depth/2)/depth):255;
+}
 
 /* reads a positive number not higher than max, after spaces and comments */
 static char read_number(FILE* fin, unsigned int max, unsigned int* number)
@@ -113,12 +117,11 @@ char ppm_read(const char* name, uint32_t* values)
         uint8_t blue;
         int width;
         int height;
-        uint16_t depth_short;
+        uint16_t depth;
         /* check magic number to determine if ASCII or binary */
-        if(read_header(fin, &type, &width, &height, &depth_short))
+        if(read_header(fin, &type, &width, &height, &depth))
         {
             const size_t TOTAL = (size_t)width*height;
-            float depth = (float)depth_short;
             if(type == '3') /* ASCII */
             {
                 unsigned int num_val;
@@ -128,11 +131,11 @@ char ppm_read(const char* name, uint32_t* values)
                 {
                     values[i] = 0x000000FF;
                     retval &= read_number(fin, UINT16_MAX, &num_val);
-                    red = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
+                    red = to_byte(num_val, depth);
                     retval &= read_number(fin, UINT16_MAX, &num_val);
-                    green = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
+                    green = to_byte(num_val, depth);
                     retval &= read_number(fin, UINT16_MAX, &num_val);
-                    blue = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
+                    blue = to_byte(num_val, depth);
                     values[i] |= red << 8;
                     values[i] |= green << 16;
                     values[i] |= blue << 24;
@@ -148,7 +151,7 @@ char ppm_read(const char* name, uint32_t* values)
                    by specification this will ALWAYS be ONE space or newline
                    so no \n\r or other windows shits */
                 fseek(fin, 1, SEEK_CUR);
-                if(depth_short<=255)/* 1 byte per component */
+                if(depth<=255)/* 1 byte per component */
                 {
                     uint8_t* row = (uint8_t*)malloc(sizeof(uint8_t)*3*width);
                     /* read a pixel block of READ_BUFFER size */
@@ -159,9 +162,9 @@ char ppm_read(const char* name, uint32_t* values)
                         x = 0;
                         while(x<width)
                         {
-                            red = (uint8_t)((row[row_idx++]/depth)*255);
-                            green = (uint8_t)((row[row_idx++]/depth)*255);
-                            blue = (uint8_t)((row[row_idx++]/depth)*255);
+                            red = to_byte(row[row_idx++], depth);
+                            green = to_byte(row[row_idx++], depth);
+                            blue = to_byte(row[row_idx++], depth);
                             values[output_idx] = 0x000000FF;
                             values[output_idx] |= red << 8;
                             values[output_idx] |= green << 16;
@@ -186,13 +189,13 @@ char ppm_read(const char* name, uint32_t* values)
                             uint16_t val;
                             val = ENDIANNESS_BIG16(row[row_idx]);
                             row_idx++;
-                            red = (uint8_t)(CLAMP(val/depth, 0.f, 1.f)*255);
+                            red = to_byte(val, depth);
                             val = ENDIANNESS_BIG16(row[row_idx]);
                             row_idx++;
-                            green = (uint8_t)(CLAMP(val/depth, 0.f, 1.f)*255);
+                            green = to_byte(val, depth);
                             val = ENDIANNESS_BIG16(row[row_idx]);
                             row_idx++;
-                            blue = (uint8_t)(CLAMP(val/depth, 0.f, 1.f)*255);
+                            blue = to_byte(val, depth);
                             values[output_idx] = 0x000000FF;
                             values[output_idx] |= red << 8;
                             values[output_idx] |= green << 16;
-- 
2.43.0


From 18dfacfb6006829b6d1c11be877cdaab53595438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:21 +0000
Subject: [PATCH 47/80] fix: broken PNG images ended the program

---
 src/utility/imageio/png.c | 162 +++++++++++++++++++++++---------------
 1 file changed, 97 insertions(+), 65 deletions(-)

diff --git a/src/utility/imageio/png.c b/src/utility/imageio/png.c
index 51432ab..b6f6e83 100644
--- a/src/utility/imageio/png.c
+++ b/src/utility/imageio/png.c
@@ -3,6 +3,19 @@
 
 #include "png.h"
 
+/* the default handlers print a message, and the error one ends the program */
+static void png_failed(png_structp png_img, png_const_charp message)
+{
+    (void)message;
+    longjmp(png_jmpbuf(png_img), 1);
+}
+
+static void png_ignore(png_structp png_img, png_const_charp message)
+{
+    (void)png_img;
+    (void)message;
+}
+
 char png_write(const char* name, int width, int height, const uint32_t* data)
 {
     char retval = 0;
@@ -26,22 +39,27 @@ char png_write(const char* name, int width, int height, const uint32_t* data)
                 rows[y][x*3+2] = (data[y*width+x] & 0xFF000000) >> 24;
             }
         }
-        png_img = png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
-                                          NULL);
+        png_img = png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL,
+                                          png_failed, png_ignore);
         png_info = png_create_info_struct(png_img);
-        png_init_io(png_img, fout);
-        png_set_IHDR(png_img, png_info, width, height,
-                     8, PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE,
-                     PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
-        png_write_info(png_img, png_info);
-        png_write_image(png_img, rows);
-        png_write_end(png_img, NULL);
+        if(setjmp(png_jmpbuf(png_img)) == 0)
+        {
+            png_init_io(png_img, fout);
+            png_set_IHDR(png_img, png_info, width, height,
+                         8, PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE,
+                         PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
+            png_write_info(png_img, png_info);
+            png_write_image(png_img, rows);
+            png_write_end(png_img, NULL);
+            retval = 1;
+        }
+        else
+            retval = 0;
         for(y = 0; y<height; y++)
             free(rows[y]);
         free(rows);
         png_destroy_write_struct(&png_img, &png_info);
         fclose(fout);
-        retval = 1;
     }
     return retval;
 }
@@ -52,7 +70,7 @@ char png_valid(const char* name)
     FILE* fin = fopen(name, "rb");
     if(fin != NULL)
     {
-        uint8_t header[8];
+        uint8_t header[8] = {0};
         fread(header, 1, 8, fin);
         retval = png_sig_cmp(header, 0, 8) == 0;
         fclose(fin);
@@ -66,22 +84,27 @@ char png_dimensions(const char* name, int* width, int* height)
     FILE* fin = fopen(name, "rb");
     if(fin != NULL)
     {
-        uint8_t header[8];
+        uint8_t header[8] = {0};
         png_structp png_img;
         png_infop png_info;
         fread(header, 1, 8, fin);
         if(png_sig_cmp(header, 0, 8) == 0)
         {
-            png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
-                                             NULL);
+            png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL,
+                                             png_failed, png_ignore);
             png_info = png_create_info_struct(png_img);
-            png_init_io(png_img, fin);
-            png_set_sig_bytes(png_img, 8);
-            png_read_info(png_img, png_info);
-            *width = png_get_image_width(png_img, png_info);
-            *height = png_get_image_height(png_img, png_info);
+            if(setjmp(png_jmpbuf(png_img)) == 0)
+            {
+                png_init_io(png_img, fin);
+                png_set_sig_bytes(png_img, 8);
+                png_read_info(png_img, png_info);
+                *width = png_get_image_width(png_img, png_info);
+                *height = png_get_image_height(png_img, png_info);
+                retval = 1;
+            }
+            else
+                retval = 0;
             png_destroy_read_struct(&png_img, &png_info, NULL);
-            retval = 1;
         }
         fclose(fin);
     }
@@ -96,67 +119,76 @@ char png_read(const char* name, uint32_t* values)
     {
         int y;
         int x;
-        uint8_t header[8];
-        png_byte** rows;
+        uint8_t header[8] = {0};
+        png_byte** volatile rows;
         png_structp png_img;
         png_infop png_info;
         int width;
         int height;
         int color_type;
         int bpp;
-        int index_rgb;
         fread(header, 1, 8, fin);
         if(png_sig_cmp(header, 0, 8) == 0)
         {
-            png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
-                                             NULL);
+            png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL,
+                                             png_failed, png_ignore);
             png_info = png_create_info_struct(png_img);
-            png_init_io(png_img, fin);
-            png_set_sig_bytes(png_img, 8);
-            png_read_info(png_img, png_info);
-
-            width = png_get_image_width(png_img, png_info);
-            height = png_get_image_height(png_img, png_info);
-            color_type = png_get_color_type(png_img, png_info);
-            bpp = png_get_bit_depth(png_img, png_info);
-            /* -------- Convert every possible PNG to RGBA format ----------- */
-            if(bpp == 16)
-                png_set_strip_16(png_img);
-            if(color_type == PNG_COLOR_TYPE_PALETTE)
-                png_set_palette_to_rgb(png_img);
-            if(color_type == PNG_COLOR_TYPE_GRAY && bpp<8)
-                png_set_expand_gray_1_2_4_to_8(png_img);
-            if(png_get_valid(png_img, png_info, PNG_INFO_tRNS))
-                png_set_tRNS_to_alpha(png_img);
-            /* write 0xFF as alpha */
-            if(color_type == PNG_COLOR_TYPE_RGB ||
-               color_type == PNG_COLOR_TYPE_GRAY ||
-               color_type == PNG_COLOR_TYPE_PALETTE)
-                png_set_filler(png_img, 0xFF, PNG_FILLER_AFTER);
-            if(color_type == PNG_COLOR_TYPE_GRAY ||
-               color_type == PNG_COLOR_TYPE_GRAY_ALPHA)
-                png_set_gray_to_rgb(png_img);
-            /* -------------------------------------------------------------- */
-            png_read_update_info(png_img, png_info);
-            rows = (png_byte**)malloc(sizeof(png_byte*)*height);
-            for(y = 0; y<height; y++)
-                rows[y] = (png_byte*)malloc(sizeof(png_byte)*width*4);
-            png_read_image(png_img, rows);
-            index_rgb = 0;
-            for(y = 0; y<height; y++)
+            rows = NULL;
+            if(setjmp(png_jmpbuf(png_img)) == 0)
             {
-                for(x = 0; x<width; x++)
+                png_init_io(png_img, fin);
+                png_set_sig_bytes(png_img, 8);
+                png_read_info(png_img, png_info);
+
+                width = png_get_image_width(png_img, png_info);
+                height = png_get_image_height(png_img, png_info);
+                color_type = png_get_color_type(png_img, png_info);
+                bpp = png_get_bit_depth(png_img, png_info);
+                /* -------- Convert every possible PNG to RGBA format ----------- */
+                if(bpp == 16)
+                    png_set_strip_16(png_img);
+                if(color_type == PNG_COLOR_TYPE_PALETTE)
+                    png_set_palette_to_rgb(png_img);
+                if(color_type == PNG_COLOR_TYPE_GRAY && bpp<8)
+                    png_set_expand_gray_1_2_4_to_8(png_img);
+                if(png_get_valid(png_img, png_info, PNG_INFO_tRNS))
+                    png_set_tRNS_to_alpha(png_img);
+                /* write 0xFF as alpha */
+                if(color_type == PNG_COLOR_TYPE_RGB ||
+                   color_type == PNG_COLOR_TYPE_GRAY ||
+                   color_type == PNG_COLOR_TYPE_PALETTE)
+                    png_set_filler(png_img, 0xFF, PNG_FILLER_AFTER);
+                if(color_type == PNG_COLOR_TYPE_GRAY ||
+                   color_type == PNG_COLOR_TYPE_GRAY_ALPHA)
+                    png_set_gray_to_rgb(png_img);
+                /* -------------------------------------------------------------- */
+                png_read_update_info(png_img, png_info);
+                /* rows are read, as RGBA bytes, in their final place */
+                rows = (png_byte**)malloc(sizeof(png_byte*)*height);
+                if(rows != NULL)
                 {
-                    values[index_rgb] = rows[y][x*4+3];
-                    values[index_rgb] |= rows[y][x*4+2] << 24;
-                    values[index_rgb] |= rows[y][x*4+1] << 16;
-                    values[index_rgb++] |= rows[y][x*4+0] << 8;
+                    for(y = 0; y<height; y++)
+                        rows[y] = (png_byte*)(values+(size_t)y*width);
+                    png_read_image(png_img, rows);
+                    for(y = 0; y<height; y++)
+                    {
+                        for(x = 0; x<width; x++)
+                        {
+                            const png_byte* rgba = rows[y]+(size_t)x*4;
+                            uint32_t pixel = rgba[3];
+                            pixel |= (uint32_t)rgba[2] << 24;
+                            pixel |= rgba[1] << 16;
+                            pixel |= rgba[0] << 8;
+                            values[(size_t)y*width+x] = pixel;
+                        }
+                    }
+                    retval = 1;
                 }
-                free(rows[y]);
             }
+            else
+                retval = 0;
             free(rows);
             png_destroy_read_struct(&png_img, &png_info, NULL);
-            retval = index_rgb == width*height;
         }
         fclose(fin);
     }
-- 
2.43.0


From 5271137bea2f5db6a7f74ed6370910395e3dce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:47 +0000
Subject: [PATCH 48/80] fix: broken JPG images crashed or were accepted,
 grayscale ones read out of bounds

---
 src/utility/imageio/jpg.c | 142 +++++++++++++++++++++++---------------
 1 file changed, 88 insertions(+), 54 deletions(-)

diff --git a/src/utility/imageio/jpg.c b/src/utility/imageio/jpg.c
index 5031ba6..7a975b3 100644
--- a/src/utility/imageio/jpg.c
+++ b/src/utility/imageio/jpg.c
@@ -2,13 +2,36 @@
 /*  license: MIT                */
 
 #include "jpg.h"
+#include <jerror.h>
+#include <setjmp.h>
 
-#define UNUSED(x) (void)(x)
+/* error manager with the point where the function continues after an error */
+struct jpg_error_mgr
+{
+    struct jpeg_error_mgr base;
+    jmp_buf resume;
+    char truncated;
+};
 
 static void jpg_error(j_common_ptr jpg_img)
 {
-    UNUSED(jpg_img);
     /* avoid terminating program if jpg error is encountered */
+    longjmp(((struct jpg_error_mgr*)jpg_img->err)->resume, 1);
+}
+
+/* missing data is replaced by the library, with just a warning */
+static void jpg_message(j_common_ptr jpg_img, int level)
+{
+    if(level<0 && (jpg_img->err->msg_code == JWRN_JPEG_EOF ||
+                   jpg_img->err->msg_code == JWRN_HIT_MARKER))
+        ((struct jpg_error_mgr*)jpg_img->err)->truncated = 1;
+}
+
+static char jpg_open(struct jpeg_decompress_struct* jpg_img, FILE* fin)
+{
+    jpeg_create_decompress(jpg_img);
+    jpeg_stdio_src(jpg_img, fin);
+    return jpeg_read_header(jpg_img, TRUE) == JPEG_HEADER_OK;
 }
 
 char jpg_write(const char* name, int width, int height, const uint32_t* data)
@@ -18,7 +41,7 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
     if(fout != NULL)
     {
         struct jpeg_compress_struct jpg_img;
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         int i;
         JSAMPROW current_row;
         /*not the best thing, but the jpeg functions wants a modifiable array*/
@@ -32,25 +55,30 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
             data_nc[i*3+1] = (data[i] & 0x00FF0000) >> 16;
             data_nc[i*3+2] = (data[i] & 0xFF000000) >> 24;
         }
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
-        jpeg_create_compress(&jpg_img);
-        jpeg_stdio_dest(&jpg_img, fout);
-        jpg_img.image_width = width;
-        jpg_img.image_height = height;
-        jpg_img.input_components = 3;
-        jpg_img.in_color_space = JCS_RGB;
-        jpeg_set_defaults(&jpg_img);
-        jpeg_set_quality(&jpg_img, 100, 1);
-        jpeg_start_compress(&jpg_img, 1);
-        while(jpg_img.next_scanline<jpg_img.image_height)
+        jpg_img.err = jpeg_std_error(&jpg_err.base);
+        jpg_err.base.error_exit = jpg_error;
+        jpg_err.base.emit_message = jpg_message;
+        if(setjmp(jpg_err.resume) == 0)
         {
-            current_row = data_nc+jpg_img.next_scanline*3*width;
-            jpeg_write_scanlines(&jpg_img, &current_row, 1);
+            jpeg_create_compress(&jpg_img);
+            jpeg_stdio_dest(&jpg_img, fout);
+            jpg_img.image_width = width;
+            jpg_img.image_height = height;
+            jpg_img.input_components = 3;
+            jpg_img.in_color_space = JCS_RGB;
+            jpeg_set_defaults(&jpg_img);
+            jpeg_set_quality(&jpg_img, 100, 1);
+            jpeg_start_compress(&jpg_img, 1);
+            while(jpg_img.next_scanline<jpg_img.image_height)
+            {
+                current_row = data_nc+jpg_img.next_scanline*3*width;
+                jpeg_write_scanlines(&jpg_img, &current_row, 1);
+            }
+            jpeg_finish_compress(&jpg_img);
+            retval = 1;
         }
-        retval = 1;
-        jpeg_finish_compress(&jpg_img);
+        else
+            retval = 0;
         fclose(fout);
         free(data_nc);
         jpeg_destroy_compress(&jpg_img);
@@ -66,19 +94,21 @@ char jpg_valid(const char* name)
     {
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
         memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
-        jpeg_create_decompress(&jpg_img);
-        jpeg_stdio_src(&jpg_img, fin);
-        /* check if the header is correct. The actual error handling does
-         * nothing, as the detection is performed by the read_header retval and
-         * distinguishing between errors is not required
-         */
-        retval = jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK;
+        jpg_img.err = jpeg_std_error(&jpg_err.base);
+        jpg_err.base.error_exit = jpg_error;
+        jpg_err.base.emit_message = jpg_message;
+        if(setjmp(jpg_err.resume) == 0)
+        {
+            /* check if the header is correct. Distinguishing between errors is
+             * not required
+             */
+            retval = jpg_open(&jpg_img, fin);
+        }
+        else
+            retval = 0;
         jpeg_destroy_decompress(&jpg_img);
         fclose(fin);
     }
@@ -93,15 +123,15 @@ char jpg_dimensions(const char* name, int* width, int* height)
     {
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
         memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
-        jpeg_create_decompress(&jpg_img);
-        jpeg_stdio_src(&jpg_img, fin);
-        if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
+        jpg_img.err = jpeg_std_error(&jpg_err.base);
+        jpg_err.base.error_exit = jpg_error;
+        jpg_err.base.emit_message = jpg_message;
+        if(setjmp(jpg_err.resume) != 0)
+            retval = 0;
+        else if(jpg_open(&jpg_img, fin))
         {
             /* actual data written in the header. To get the real value I should
              * call the jpeg_decompress and read output_width and output_height.
@@ -128,41 +158,45 @@ char jpg_read(const char* name, uint32_t* values)
         int row_len;
         unsigned int x;
         unsigned int y;
-        uint8_t* row;
+        uint8_t* volatile row;
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
         memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
-        jpeg_create_decompress(&jpg_img);
-        jpeg_stdio_src(&jpg_img, fin);
-        if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
+        jpg_img.err = jpeg_std_error(&jpg_err.base);
+        jpg_err.base.error_exit = jpg_error;
+        jpg_err.base.emit_message = jpg_message;
+        row = NULL;
+        if(setjmp(jpg_err.resume) != 0)
+            retval = 0;
+        else if(jpg_open(&jpg_img, fin))
         {
+            /* grayscale images are expanded to the same three channels */
+            jpg_img.out_color_space = JCS_RGB;
             jpeg_start_decompress(&jpg_img);
             row_len = jpg_img.output_width*jpg_img.output_components;
             row = (uint8_t*)malloc(sizeof(uint8_t)*row_len);
-            retval = 1;
             while(jpg_img.output_scanline<jpg_img.output_height)
             {
+                JSAMPROW current_row = row;
                 y = jpg_img.output_scanline;
-                retval &= jpeg_read_scanlines(&jpg_img, &row, 1)>0;
+                jpeg_read_scanlines(&jpg_img, &current_row, 1);
                 x = 0;
                 while(x<jpg_img.output_width)
                 {
-                    int i = y*jpg_img.output_width+x;
+                    size_t i = (size_t)y*jpg_img.output_width+x;
                     values[i] = 0x000000FF;
-                    values[i] |= row[x*3+0] << 8;
-                    values[i] |= row[x*3+1] << 16;
-                    values[i] |= row[x*3+2] << 24;
+                    values[i] |= current_row[x*3+0] << 8;
+                    values[i] |= current_row[x*3+1] << 16;
+                    values[i] |= (uint32_t)current_row[x*3+2] << 24;
                     x++;
                 }
             }
-            free(row);
+            jpeg_finish_decompress(&jpg_img);
+            retval = !jpg_err.truncated;
         }
-        jpeg_finish_decompress(&jpg_img);
+        free(row);
         jpeg_destroy_decompress(&jpg_img);
         fclose(fin);
     }
-- 
2.43.0


From b852e745102461eb15efbb5d0193af5ff6370a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:32 +0000
Subject: [PATCH 49/80] fix: truncated TIFF images accepted, empty ones crashed
 the reader

---
 src/utility/imageio/tiff.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utility/imageio/tiff.c b/src/utility/imageio/tiff.c
index 36931a9..d1f10f8 100644
--- a/src/utility/imageio/tiff.c
+++ b/src/utility/imageio/tiff.c
@@ -69,6 +69,7 @@ char tiff_dimensions(const char* name, int* width, int* height)
     {
         retval |= TIFFGetField(fin, TIFFTAG_IMAGEWIDTH, width);
         retval &= TIFFGetField(fin, TIFFTAG_IMAGELENGTH, height);
+        retval = retval && *width>0 && *height>0;
         TIFFClose(fin);
     }
     return retval;
@@ -89,11 +90,12 @@ char tiff_read(const char* name, uint32_t* values)
         uint32_t* data;
         retval |= TIFFGetField(fin, TIFFTAG_IMAGEWIDTH, &width);
         retval &= TIFFGetField(fin, TIFFTAG_IMAGELENGTH, &height);
+        retval = retval && width>0 && height>0;
         retval &= TIFFGetField(fin, TIFFTAG_SAMPLESPERPIXEL, &channels);
-        data = (uint32_t*)_TIFFmalloc(sizeof(uint32_t)*width*height);
+        data = retval?(uint32_t*)_TIFFmalloc(sizeof(uint32_t)*width*height):NULL;
         /* The first retval is used to ensure channels/width/height are valid */
-        if(retval && (channels == 3 || channels == 4) &&
-           TIFFReadRGBAImage(fin, width, height, data, 0))
+        if(data != NULL && (channels == 3 || channels == 4) &&
+           TIFFReadRGBAImage(fin, width, height, data, 1))
         {
             int x;
             int y;
-- 
2.43.0


From 1ad951e9db0d4603b73058b032734c5ab80f956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:10 +0000
Subject: [PATCH 50/80] fix: images reported as written when the disk was full

---
 src/utility/imageio/bmp.c  | 4 ++--
 src/utility/imageio/jpg.c  | 2 +-
 src/utility/imageio/png.c  | 2 +-
 src/utility/imageio/ppm.c  | 4 ++--
 src/utility/imageio/tga.c  | 4 ++--
 src/utility/imageio/tiff.c | 5 +++--
 6 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index 0ea7914..ea4df35 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -127,8 +127,8 @@ char bmp_write(const char* name, int width, int height, const uint32_t* data)
             fwrite(row, sizeof(uint8_t), bpp*width+padding, fout);
         }
         free(row);
-        fclose(fout);
-        retval = data_idx == width*height*bpp;
+        retval = data_idx == width*height*bpp && !ferror(fout);
+        retval &= fclose(fout) == 0;
     }
     return retval;
 }
diff --git a/src/utility/imageio/jpg.c b/src/utility/imageio/jpg.c
index 7a975b3..dd1bfaa 100644
--- a/src/utility/imageio/jpg.c
+++ b/src/utility/imageio/jpg.c
@@ -79,7 +79,7 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
         }
         else
             retval = 0;
-        fclose(fout);
+        retval &= fclose(fout) == 0;
         free(data_nc);
         jpeg_destroy_compress(&jpg_img);
     }
diff --git a/src/utility/imageio/png.c b/src/utility/imageio/png.c
index b6f6e83..6e72ff9 100644
--- a/src/utility/imageio/png.c
+++ b/src/utility/imageio/png.c
@@ -59,7 +59,7 @@ char png_write(const char* name, int width, int height, const uint32_t* data)
             free(rows[y]);
         free(rows);
         png_destroy_write_struct(&png_img, &png_info);
-        fclose(fout);
+        retval &= fclose(fout) == 0;
     }
     return retval;
 }
diff --git a/src/utility/imageio/ppm.c b/src/utility/imageio/ppm.c
index 91a8499..ba80268 100644
--- a/src/utility/imageio/ppm.c
+++ b/src/utility/imageio/ppm.c
@@ -71,8 +71,8 @@ char ppm_write(const char* name, int width, int height, const uint32_t* array)
             pixel[2] = (array[i] & 0xFF000000) >> 24;
             written += fwrite(&pixel, sizeof(uint8_t), 3, fout);
         }
-        fclose(fout);
-        retval = written == width*height*3;
+        retval = written == width*height*3 && !ferror(fout);
+        retval &= fclose(fout) == 0;
     }
     return retval;
 }
diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index 5d5a2d3..8c0d92c 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -108,9 +108,9 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
             }
             fwrite(row, sizeof(uint8_t), BPP*width, fout);
         }
-        fclose(fout);
         free(row);
-        retval = data_idx == width*height*BPP;
+        retval = data_idx == width*height*BPP && !ferror(fout);
+        retval &= fclose(fout) == 0;
     }
     return retval;
 }
diff --git a/src/utility/imageio/tiff.c b/src/utility/imageio/tiff.c
index d1f10f8..4a0d72b 100644
--- a/src/utility/imageio/tiff.c
+++ b/src/utility/imageio/tiff.c
@@ -33,12 +33,13 @@ char tiff_write(const char* name, int width, int height, const uint32_t* data)
                 row[x*3+2] = (data[y*width+x] & 0xFF000000) >> 24;
                 x++;
             }
-            if(TIFFWriteScanline(fout, row, y++, 0)<0)
+            if(TIFFWriteScanline(fout, row, y, 0)<0)
                 break;
+            y++;
         }
         _TIFFfree(row);
+        retval = y == height && TIFFFlush(fout);
         TIFFClose(fout);
-        retval = y == height;
     }
     return retval;
 }
-- 
2.43.0


From fb220a23535bfee0153dac72f53f6db749cd7d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:57 +0000
Subject: [PATCH 51/80] fix: textures created from images that could not be
 read

---
 src/textures/texture_image.cpp | 58 ++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index eee6c6a..fec14a2 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -12,33 +12,45 @@ TextureImage::TextureImage(const File& src, Vec2& shift, Vec2& scale,
     {
         if(src.readable())
         {
-            int width;
-            int height;
-            img_dimensions(src.absolute_path(), src.extension(),
-                           &width, &height);
-            if(width == height && (height & (height-1)) == 0) //power of 2
+            int width = 0;
+            int height = 0;
+            uint32_t* bgra_data = NULL;
+            char read = img_dimensions(src.absolute_path(), src.extension(),
+                                       &width, &height);
+            //power of 2, with a side that can be stored by the ImageMap
+            if(read && (width != height || (height & (height-1)) != 0 ||
+                        height<1 || height>UINT16_MAX))
             {
-                uint32_t* bgra_data = (uint32_t*)malloc(width*height*sizeof
-                        (uint32_t));
-                img_read8(src.absolute_path(), src.extension(), bgra_data);
-                switch(filter)
-                {
-                    case UNFILTERED:
-                        imagemap = new ImageMapUnfiltered(bgra_data, width);
-                        break;
-                    case TRILINEAR:
-                        imagemap = new ImageMapTrilinear(bgra_data, width);
-                        break;
-                    case EWA:imagemap = new ImageMapEWA(bgra_data, width);
-                        break;
-                }
-                free(bgra_data);
-                TexLib.inherit_map(src.absolute_path(), imagemap);
+                Console.warning(MESSAGE_TEXTURE_POWER2, src.absolute_path());
+                imagemap = TexLib.get_dflt_map();
             }
             else
             {
-                Console.warning(MESSAGE_TEXTURE_POWER2, src.absolute_path());
-                imagemap = TexLib.get_dflt_map();
+                if(read)
+                    bgra_data = (uint32_t*)malloc((size_t)width*height*sizeof
+                            (uint32_t));
+                if(bgra_data != NULL &&
+                   img_read8(src.absolute_path(), src.extension(), bgra_data))
+                {
+                    switch(filter)
+                    {
+                        case UNFILTERED:
+                            imagemap = new ImageMapUnfiltered(bgra_data, width);
+                            break;
+                        case TRILINEAR:
+                            imagemap = new ImageMapTrilinear(bgra_data, width);
+                            break;
+                        case EWA:imagemap = new ImageMapEWA(bgra_data, width);
+                            break;
+                    }
+                    TexLib.inherit_map(src.absolute_path(), imagemap);
+                }
+                else
+                {
+                    Console.warning(MESSAGE_TEXTURE_ERROR, src.absolute_path());
+                    imagemap = TexLib.get_dflt_map();
+                }
+                free(bgra_data);
             }
         }
         else
-- 
2.43.0


From a7e7338faf88a27ecc2afe9fc4be19487c243bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:08 +0000
Subject: [PATCH 52/80] fix: .ppm appended after the trailing separators of the
 output path

---
 src/cameras/image_film.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 83a6b89..2449168 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -20,12 +20,14 @@ ImageFilm::ImageFilm(int width, int height, const char* fullpath)
     {
         //check extension, add .ppm if not supported
         bool supported = img_supported(output.extension());
-        int path_len = (int)strlen(fullpath)+1;
+        //the resolved path, the given one could end with separators or dots
+        const char* path = output.absolute_path();
+        int path_len = (int)strlen(path)+1;
         //to add the .ppm at the end, if necessary
         if(!supported)
         {
             char* tmp_buf = (char*)malloc(sizeof(char)*path_len+4);
-            strcpy(tmp_buf, fullpath);
+            strcpy(tmp_buf, path);
             strcat(tmp_buf, ".ppm");
             output = File(tmp_buf);
             free(tmp_buf);
-- 
2.43.0


From 565b2f3eb74a555000c5d235f2cedc68a913d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:46 +0000
Subject: [PATCH 53/80] fix: output files in place of folders or read-only not
 reported before rendering

---
 src/cameras/image_film.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 2449168..cff167f 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -16,7 +16,7 @@ ImageFilm::ImageFilm(int width, int height, const char* fullpath)
         return; // <- bail out in tests since critical msg does not kill program
     }
     File parent_folder = output.get_parent();
-    if(parent_folder.writable())
+    if(parent_folder.is_folder() && parent_folder.writable())
     {
         //check extension, add .ppm if not supported
         bool supported = img_supported(output.extension());
@@ -40,6 +40,9 @@ ImageFilm::ImageFilm(int width, int height, const char* fullpath)
                 return; //bail out during tests
             }
         }
+        //the file to be replaced could be read-only
+        if(output.exists() && !output.writable())
+            Console.critical(MESSAGE_W_DENIED, output.absolute_path());
     }
     else
         Console.critical(MESSAGE_W_DENIED, parent_folder.absolute_path());
-- 
2.43.0


From f53f332ef59b474dc2d8192d1b708fdd4cbace0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:17 +0000
Subject: [PATCH 54/80] fix: OBJ files without final newline hung the parser,
 tabs, CR and trailing blanks misread

---
 src/parsers/parser_obj.cpp | 108 ++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 69 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index fbc5757..fdd6c1c 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -6,13 +6,13 @@
 #else
 #define BUFFER_SIZE 4096
 #endif
-#define END_OF_BUFFER_GUARD 0x7 //unused ASCII char, keep it as kinda EOF
 #define TOKEN_SIZE 255
 
 static inline void get_next_token(char** source, char* buffer, int max_size,
                                   int* read_bytes, char* buffer_ro, FILE* in);
 
-static inline void feed_buffer(int* read_bytes, char* buffer_ro, FILE* input);
+static inline int peek_char(char** source, int* read_bytes, char* buffer_ro,
+                            FILE* input);
 
 ParserObj::ParserObj()
 {
@@ -38,11 +38,10 @@ void ParserObj::start_parsing(const char* path)
     groups_as_names = false;
     craft_token = '\0';
     if(buffer_ro == NULL)
-        buffer_ro = (char*)malloc(sizeof(char)*(BUFFER_SIZE+1));
+        buffer_ro = (char*)malloc(sizeof(char)*BUFFER_SIZE);
     if(fin != NULL)
     {
         read_bytes = (int)fread(buffer_ro, sizeof(char), BUFFER_SIZE, fin);
-        buffer_ro[read_bytes] = END_OF_BUFFER_GUARD;
         buffer = buffer_ro;
     }
     else
@@ -86,7 +85,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
     used_materials.insert({{"Default", 0}});
     object_name = "";
     char token[TOKEN_SIZE];
-    while(*buffer != END_OF_BUFFER_GUARD)
+    while(peek_char(&buffer, &read_bytes, buffer_ro, fin) != EOF)
     {
         if(craft_token)
         {
@@ -223,10 +222,12 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             {
                 bool recreate_normals = false;
                 bool recreate_textures = false;
-                while(*buffer == ' ') //load every component of the face
+                while(true) //load every component of the face
                 {
                     get_next_token(&buffer, token, TOKEN_SIZE,
                                    &read_bytes, buffer_ro, fin);
+                    if(token[0] == '\0') //end of line
+                        break;
                     char* tk_idx = token; //token index
                     //process face
                     int vert_idx = 0;
@@ -300,13 +301,6 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         recreate_normals = true;
                     }
                     face_tmp.push_back(res);
-                    //  Never managed to reach this point.
-                    //  TODO: try with non POSIX files
-                    // if(*buffer == END_OF_BUFFER_GUARD)
-                    // {
-                    //     feed_buffer(&read_bytes, buffer_ro, fin);
-                    //     buffer = buffer_ro;
-                    // }
                 }
                 if(recreate_normals)
                 {
@@ -375,29 +369,21 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                 /*skip unknown line*/;
         }
         //skip rest of line /////////////
-        while(*buffer != '\n')
+        int current = peek_char(&buffer, &read_bytes, buffer_ro, fin);
+        while(current != '\n' && current != '\r' && current != EOF)
         {
-            if(*buffer == END_OF_BUFFER_GUARD)
-            {
-                feed_buffer(&read_bytes, buffer_ro, fin);
-                buffer = buffer_ro;
-            }
-            else
-                buffer++;
+            buffer++;
+            current = peek_char(&buffer, &read_bytes, buffer_ro, fin);
         }
         //////////////////////////////////
-        if(*buffer != END_OF_BUFFER_GUARD)
+        if(current != EOF)
         {
             buffer++;
+            //DOS line ending
+            if(current == '\r' && peek_char(&buffer, &read_bytes, buffer_ro,
+                                            fin) == '\n')
+                buffer++;
             lineno++;
-            //avoid leaving buffer pointer on the guard while there
-            //are still bytes to read
-            if(*buffer == END_OF_BUFFER_GUARD)
-            {
-                feed_buffer(&read_bytes, buffer_ro, fin);
-                buffer = buffer_ro;
-                //if buffer is still equal END_OF_BUFFER_GUARD the file is ended
-            }
         }
     }
     finalize_mesh(obj);;
@@ -472,54 +458,38 @@ void ParserObj::get_material_association(unsigned char* out_association) const
 static inline void get_next_token(char** source, char* token_buf, int max_size,
                                   int* read_bytes, char* buffer_ro, FILE* input)
 {
-    char current = **source;
+    int current = peek_char(source, read_bytes, buffer_ro, input);
     //skip spaces
-    while(current == ' ' || current == '\t' || current == END_OF_BUFFER_GUARD)
+    while(current == ' ' || current == '\t')
     {
-        if(current == END_OF_BUFFER_GUARD)
-        {
-            feed_buffer(read_bytes, buffer_ro, input);
-            *source = buffer_ro;
-            current = **source;
-            //should never happen
-            //TODO: try with non POSIX files
-            //if(current == END_OF_BUFFER_GUARD)
-            //    return;
-        }
-        else
-        {
-            (*source)++;
-            current = **source;
-        }
+        (*source)++;
+        current = peek_char(source, read_bytes, buffer_ro, input);
     }
     //get token
     int i = 0;
-    while(current != ' ' && current != '\n' && current != '\r')
+    while(current != ' ' && current != '\t' && current != '\n'
+          && current != '\r' && current != EOF)
     {
-        if(current == END_OF_BUFFER_GUARD)
-        {
-            feed_buffer(read_bytes, buffer_ro, input);
-            *source = buffer_ro;
-            current = **source;
-            //should never happen
-            //TODO: try with non POSIX files
-            //if(current == END_OF_BUFFER_GUARD) //end of file
-            //    break; //break instead of return since I want an ok token
-        }
-        else
-        {
-            //update buffer if there is space left
-            if(i<max_size-1) //max_size-1 is reserved for last '\0'
-                token_buf[i++] = current;
-            (*source)++;
-            current = **source;
-        }
+        //update buffer if there is space left
+        if(i<max_size-1) //max_size-1 is reserved for last '\0'
+            token_buf[i++] = (char)current;
+        (*source)++;
+        current = peek_char(source, read_bytes, buffer_ro, input);
     }
     token_buf[i] = 0x0; //transform buffer to null terminated string
 }
 
-static inline void feed_buffer(int* read_bytes, char* buffer_ro, FILE* input)
+//returns the current char, refilling the buffer if every char has been used, or
+//EOF if the file is ended
+static inline int peek_char(char** source, int* read_bytes, char* buffer_ro,
+                            FILE* input)
 {
-    *read_bytes = (int)fread(buffer_ro, sizeof(char), BUFFER_SIZE, input);
-    buffer_ro[*read_bytes] = END_OF_BUFFER_GUARD;
+    if(*source == buffer_ro+*read_bytes)
+    {
+        *read_bytes = (int)fread(buffer_ro, sizeof(char), BUFFER_SIZE, input);
+        *source = buffer_ro;
+        if(*read_bytes == 0)
+            return EOF;
+    }
+    return (unsigned char)**source;
 }
-- 
2.43.0


From 9a0eb0a1a06dd7509474942b285f1bb9063aea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:18 +0000
Subject: [PATCH 55/80] fix: OBJ keywords recognised by their first letter only

---
 src/parsers/parser_obj.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index fdd6c1c..7dc8d27 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -96,6 +96,11 @@ bool ParserObj::get_next_mesh(Mesh* obj)
         else
             get_next_token(&buffer, token, TOKEN_SIZE,
                            &read_bytes, buffer_ro, fin);
+        //keywords starting like a supported one (vp, end, off...) are unknown
+        if(token[0] != '\0' && token[1] != '\0' &&
+           strcmp(token, "vt") != 0 && strcmp(token, "vn") != 0 &&
+           strcmp(token, "usemtl") != 0)
+            token[0] = '\0';
         switch(token[0])
         {
             case 'v':
-- 
2.43.0


From 5e20396fa69eea9e98fa9d1a78c3eea450e53ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:18 +0000
Subject: [PATCH 56/80] fix: OBJ faces with invalid indices read invalid
 memory, threw or ended the parsing

---
 src/parsers/parser_obj.cpp | 120 ++++++++++++++++++-------------------
 1 file changed, 57 insertions(+), 63 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 7dc8d27..cc87875 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -14,6 +14,8 @@ static inline void get_next_token(char** source, char* buffer, int max_size,
 static inline int peek_char(char** source, int* read_bytes, char* buffer_ro,
                             FILE* input);
 
+static inline bool resolve_index(long* index, size_t size);
+
 ParserObj::ParserObj()
 {
     buffer_ro = NULL;
@@ -225,6 +227,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             }
             case 'f': //process face
             {
+                bool wrong_index = false;
                 bool recreate_normals = false;
                 bool recreate_textures = false;
                 while(true) //load every component of the face
@@ -235,78 +238,60 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         break;
                     char* tk_idx = token; //token index
                     //process face
-                    int vert_idx = 0;
-                    int text_idx = 0;
-                    int norm_idx = 0;
-                    vert_idx = (int)strtol(tk_idx, &tk_idx, 10);
+                    long vert_idx = 0;
+                    long text_idx = 0;
+                    long norm_idx = 0;
+                    vert_idx = strtol(tk_idx, &tk_idx, 10);
                     Vertex res;
-                    if(*tk_idx != '\0')
+                    bool has_text = false;
+                    bool has_norm = false;
+                    if(*tk_idx == '/')
                     {
                         tk_idx++;
-                        if(*tk_idx != '/') //v/vt/vn
-                            text_idx = (int)strtol(tk_idx, &tk_idx, 10);
-                        tk_idx++;
-                        norm_idx = (int)strtol(tk_idx, &tk_idx, 10);
-                    }
-                    //check indexes consistency
-                    if(vert_idx != 0)
-                    {
-                        int vert_size = (int)vertices.size();
-                        if(vert_idx<0)
-                            vert_idx = vert_size+vert_idx;
-                        else if(vert_idx>0 && vert_idx<=vert_size)
-                            vert_idx--;
-                        else
+                        if(*tk_idx != '/' && *tk_idx != '\0') //v/vt/vn
                         {
-                            Console.severe(MESSAGE_INDEX_OBJ,
-                                           path, lineno);
-                            finalize_mesh(obj);
-                            return false;
+                            has_text = true;
+                            text_idx = strtol(tk_idx, &tk_idx, 10);
                         }
-                        res.p = vertices.at((unsigned long)vert_idx);
-                    }
-                    if(text_idx != 0)
-                    {
-                        int text_size = (int)textures.size();
-                        if(text_idx<0)
-                            text_idx = text_size+text_idx;
-                        else if(text_idx>0 && text_idx<=text_size)
-                            text_idx--;
-                        else
+                        if(*tk_idx == '/')
                         {
-                            Console.severe(MESSAGE_INDEX_OBJ,
-                                           path, lineno);
-                            finalize_mesh(obj);
-                            return false;
+                            tk_idx++;
+                            if(*tk_idx != '\0')
+                            {
+                                has_norm = true;
+                                norm_idx = strtol(tk_idx, &tk_idx, 10);
+                            }
                         }
-                        res.t = textures.at((unsigned long)text_idx);
-                    }
-                    else
-                    {
-                        recreate_textures = true;
                     }
-                    if(norm_idx != 0)
+                    //check indexes consistency
+                    if(*tk_idx != '\0' ||
+                       !resolve_index(&vert_idx, vertices.size()) ||
+                       (has_text && !resolve_index(&text_idx,
+                                                   textures.size())) ||
+                       (has_norm && !resolve_index(&norm_idx, normals.size())))
                     {
-                        int norm_size = (int)normals.size();
-                        if(norm_idx<0)
-                            norm_idx = norm_size+norm_idx;
-                        else if(norm_idx>0 && norm_idx<=norm_size)
-                            norm_idx--;
-                        else
-                        {
-                            Console.severe(MESSAGE_INDEX_OBJ,
-                                           path, lineno);
-                            finalize_mesh(obj);
-                            return false;
-                        }
-                        res.n = normals.at((unsigned long)norm_idx);
+                        wrong_index = true;
+                        break;
                     }
+                    res.p = vertices[vert_idx];
+                    if(has_text)
+                        res.t = textures[text_idx];
+                    else
+                        recreate_textures = true;
+                    if(has_norm)
+                        res.n = normals[norm_idx];
                     else
-                    {
                         recreate_normals = true;
-                    }
                     face_tmp.push_back(res);
                 }
+                //skip the faces that can't be built, keeping the others
+                if(wrong_index || face_tmp.size()<3)
+                {
+                    if(wrong_index)
+                        Console.severe(MESSAGE_INDEX_OBJ, path, lineno);
+                    face_tmp.clear();
+                    break;
+                }
                 if(recreate_normals)
                 {
                     //the normal should be created for the entire face
@@ -362,11 +347,6 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         face_no++;
                     }
                 }
-                else //face with less than 2 vertex. not even writing to
-                {    // console
-                    finalize_mesh(obj);
-                    return false;
-                }
                 face_tmp.clear();
                 break;
             }
@@ -498,3 +478,17 @@ static inline int peek_char(char** source, int* read_bytes, char* buffer_ro,
     }
     return (unsigned char)**source;
 }
+
+//transforms a 1-based or relative index of the file in an array index, returns
+//false if it does not designate any of the elements
+static inline bool resolve_index(long* index, size_t size)
+{
+    const long len = (long)size;
+    if(*index>0 && *index<=len)
+        *index = *index-1;
+    else if(*index<0 && *index>=-len)
+        *index = len+*index;
+    else
+        return false;
+    return true;
+}
-- 
2.43.0


From 41d26eeb60d05728b6285f2911c424e8bacc6f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 57/80] fix: OBJ objects without faces or following unnamed
 faces and groups lost the others

---
 src/parsers/parser_obj.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index cc87875..856d05b 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -189,7 +189,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             case 'o':
             {
                 //old object finished, bail out
-                if(object_name != "")
+                if(face_no>0)
                 {
                     //since the original get_next_token already ate the 'g'
                     //buffer needs to be decremented. But buffer could have
@@ -203,11 +203,12 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                 get_next_token(&buffer, token, TOKEN_SIZE,
                                &read_bytes, buffer_ro, fin);
                 object_name = std::string(token);
+                groups_as_names = false;
                 break;
             }
             case 'g':
             {
-                if(object_name != "" && groups_as_names)
+                if(face_no>0 && (object_name == "" || groups_as_names))
                 {
                     //like in the 'o' switch, but craft a 'g' instead
                     craft_token = 'g';
-- 
2.43.0


From dce62bdc95f8bff9ed568e2d041dcf6f3346dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 58/80] fix: data of the previous OBJ file used by the
 following one, buffer leaked

---
 src/parsers/parser_obj.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 856d05b..4020d19 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -24,11 +24,7 @@ ParserObj::ParserObj()
 
 ParserObj::~ParserObj()
 {
-    if(buffer_ro != NULL)
-    {
-        buffer_ro = NULL;
-        delete buffer_ro;
-    }
+    end_parsing();
 }
 
 void ParserObj::start_parsing(const char* path)
@@ -36,9 +32,15 @@ void ParserObj::start_parsing(const char* path)
     ParserObj::path = path;
     lineno = 1;
     face_no = 0; //used to know when nothing was parsed
-    fin = fopen(path, "r");
     groups_as_names = false;
     craft_token = '\0';
+    //drop the data of the previous file
+    vertices.clear();
+    textures.clear();
+    normals.clear();
+    if(fin != NULL)
+        fclose(fin);
+    fin = fopen(path, "r");
     if(buffer_ro == NULL)
         buffer_ro = (char*)malloc(sizeof(char)*BUFFER_SIZE);
     if(fin != NULL)
@@ -54,8 +56,8 @@ void ParserObj::end_parsing()
 {
     if(buffer_ro != NULL)
     {
+        free(buffer_ro);
         buffer_ro = NULL;
-        delete buffer_ro;
     }
     if(fin != NULL)
     {
-- 
2.43.0


From 2c82eb92a14aac355ac1c71e6cd0e96c883214c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 59/80] fix: OBJ material in effect forgotten at the beginning
 of every object

---
 src/parsers/parser_obj.cpp | 13 +++++++++++++
 src/parsers/parser_obj.hpp |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 4020d19..730ad2d 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -38,6 +38,7 @@ void ParserObj::start_parsing(const char* path)
     vertices.clear();
     textures.clear();
     normals.clear();
+    material_name = "";
     if(fin != NULL)
         fclose(fin);
     fin = fopen(path, "r");
@@ -88,6 +89,17 @@ bool ParserObj::get_next_mesh(Mesh* obj)
     material_association.clear();
     used_materials.insert({{"Default", 0}});
     object_name = "";
+    //the material is in effect until changed, even by the following objects
+    if(used_materials.find(material_name) == used_materials.end())
+    {
+        const Bsdf* cur_mat = MtlLib.get(material_name.c_str());
+        if(cur_mat != NULL)
+        {
+            current_material = 1;
+            used_materials.insert({{material_name, current_material}});
+            materials.push_back(cur_mat);
+        }
+    }
     char token[TOKEN_SIZE];
     while(peek_char(&buffer, &read_bytes, buffer_ro, fin) != EOF)
     {
@@ -162,6 +174,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     //get material name
                     get_next_token(&buffer, token, TOKEN_SIZE,
                                    &read_bytes, buffer_ro, fin);
+                    material_name = token;
                     //check if material was already used and s
                     std::unordered_map<std::string, unsigned
                     char>::const_iterator it = used_materials.find(token);
diff --git a/src/parsers/parser_obj.hpp b/src/parsers/parser_obj.hpp
index 4ba7baf..ae86f6b 100644
--- a/src/parsers/parser_obj.hpp
+++ b/src/parsers/parser_obj.hpp
@@ -172,6 +172,8 @@ private:
     //the material associated for every triangle. It is the offset of the
     // materials array
     std::vector<unsigned char> material_association;
+    //last material encountered in the file
+    std::string material_name;
     //name of the mesh
     std::string object_name;
     //vertices of every mesh contained in the file
-- 
2.43.0


From e196a5287ee61047419a07ead21394aa724b1597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 60/80] fix: OBJ meshes with more than 255 materials overflowed
 the materials array

---
 src/parsers/parser_obj.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 730ad2d..80c7cad 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -181,7 +181,8 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     if(it == used_materials.end())
                     {
                         const Bsdf* cur_mat = MtlLib.get(token);
-                        if(cur_mat == NULL)
+                        //the association has one byte per face
+                        if(cur_mat == NULL || materials.size()>=255)
                         {
                             //insert as default material
                             used_materials.insert({{token, 0}});
-- 
2.43.0


From b324cca2aac8fc3d73d06459ec51e5b5460cef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 61/80] fix: OBJ polygons beginning with aligned vertices had
 no normal

---
 src/parsers/parser_obj.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 80c7cad..3107bee 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -315,9 +315,13 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     //no risk of losing info: if the normal is missing
                     //for one vertex it MUST be missing for every vertex
                     //of the face
-                    Vec3 u = face_tmp[1].p-face_tmp[0].p;
-                    Vec3 v = face_tmp[2].p-face_tmp[0].p;
-                    Normal face_normal = (Normal)cross(u, v);
+                    //every triangle is considered, because the first
+                    //vertices of the polygon could be aligned
+                    Vec3 sum(0.f, 0.f, 0.f);
+                    for(unsigned long i = 2; i<face_tmp.size(); i++)
+                        sum = sum+cross(face_tmp[i-1].p-face_tmp[0].p,
+                                        face_tmp[i].p-face_tmp[0].p);
+                    Normal face_normal(sum);
                     face_normal.normalize();
                     for(int i = 0; i<(int)face_tmp.size(); i++)
                         face_tmp[i].n = face_normal;
-- 
2.43.0


From 39eea1fe08f4ece7d2a978ecb97d84d7a2c6e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:55 +0000
Subject: [PATCH 62/80] fix: NaN and infinite coordinates in the tree of meshes
 with the centers aligned

---
 src/accelerators/bvh.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index edde845..9680f46 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -333,10 +333,11 @@ void Bvh::buildTree(Triangle* tris, int len)
         centroidaabb.engulf(centroids+i);
     }
     //calculate reciprocal of the centroidaabb, used to map distance in [0-1]
+    //(a mesh lying on a plane has an empty axis)
     Vec3 centroidaabb_ext = (centroidaabb.bounds[1]-centroidaabb.bounds[0]);
-    centroidaabb_ext.x = 1.f/centroidaabb_ext.x;
-    centroidaabb_ext.y = 1.f/centroidaabb_ext.y;
-    centroidaabb_ext.z = 1.f/centroidaabb_ext.z;
+    centroidaabb_ext.x = centroidaabb_ext.x>0.f?1.f/centroidaabb_ext.x:0.f;
+    centroidaabb_ext.y = centroidaabb_ext.y>0.f?1.f/centroidaabb_ext.y:0.f;
+    centroidaabb_ext.z = centroidaabb_ext.z>0.f?1.f/centroidaabb_ext.z:0.f;
     for(int i = 0; i<len; i++) //maps triangle centroids in [0-1] wrt whole AABB
     {
         Vec3 distance = (centroids[i]-centroidaabb.bounds[0])*centroidaabb_ext;
-- 
2.43.0


From 215457e47deef8fc05df9546de9e43371e2fd0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:13 +0000
Subject: [PATCH 63/80] fix: OBJ faces without area ended the program

---
 src/parsers/parser_obj.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 3107bee..845d166 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -321,8 +321,12 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     for(unsigned long i = 2; i<face_tmp.size(); i++)
                         sum = sum+cross(face_tmp[i-1].p-face_tmp[0].p,
                                         face_tmp[i].p-face_tmp[0].p);
-                    Normal face_normal(sum);
-                    face_normal.normalize();
+                    Normal face_normal(0.f, 0.f, 1.f);
+                    if(sum.length()>0.f) //otherwise the face is empty
+                    {
+                        face_normal = Normal(sum);
+                        face_normal.normalize();
+                    }
                     for(int i = 0; i<(int)face_tmp.size(); i++)
                         face_tmp[i].n = face_normal;
                 }
-- 
2.43.0


From f72e735e94a1efb341893417a578e05958747ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:13 +0000
Subject: [PATCH 64/80] fix: path of the OBJ file used by the messages after
 being released

---
 src/parsers/parser_obj.cpp | 7 ++++---
 src/parsers/parser_obj.hpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 845d166..bcff92f 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -29,7 +29,7 @@ ParserObj::~ParserObj()
 
 void ParserObj::start_parsing(const char* path)
 {
-    ParserObj::path = path;
+    path_name = path;
     lineno = 1;
     face_no = 0; //used to know when nothing was parsed
     groups_as_names = false;
@@ -188,7 +188,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                             used_materials.insert({{token, 0}});
                             current_material = 0;
                             Console.warning(MESSAGE_MISSING_MATERIAL,
-                                            token, path);
+                                            token, path_name.c_str());
                         }
                         else
                         {
@@ -305,7 +305,8 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                 if(wrong_index || face_tmp.size()<3)
                 {
                     if(wrong_index)
-                        Console.severe(MESSAGE_INDEX_OBJ, path, lineno);
+                        Console.severe(MESSAGE_INDEX_OBJ, path_name.c_str(),
+                                       lineno);
                     face_tmp.clear();
                     break;
                 }
diff --git a/src/parsers/parser_obj.hpp b/src/parsers/parser_obj.hpp
index ae86f6b..301a36d 100644
--- a/src/parsers/parser_obj.hpp
+++ b/src/parsers/parser_obj.hpp
@@ -150,7 +150,7 @@ private:
     void finalize_mesh(Mesh* obj);
 
     //path of the parsed file
-    const char* path;
+    std::string path_name;
     //input file
     FILE* fin;
     //buffer containing the read data
-- 
2.43.0


From 24675ca5132f3ad8e28cd6545b78f0728431e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 65/80] fix: field of view and rotations of the scene files are
 in degrees

---
 src/parsers/config_driver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index ccb2c41..dffdec5 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -240,7 +240,7 @@ Camera* ConfigDriver::build_camera()
         case SPECTRE_CAMERA_PERSPECTIVE:
         default:
             camera = new CameraPerspective(&camera_pos, &camera_tar, &camera_up,
-                                           width, height, fov);
+                                           width, height, radians(fov));
             break;
     }
     return camera;
@@ -617,9 +617,9 @@ void ConfigDriver::build_meshes()
         Matrix4 rotz_matrix;
         Matrix4 scale_matrix;
         position_matrix.set_translation(mesh_w.position);
-        rotx_matrix.set_rotate_x(mesh_w.rotation.x);
-        roty_matrix.set_rotate_y(mesh_w.rotation.y);
-        rotz_matrix.set_rotate_z(mesh_w.rotation.z);
+        rotx_matrix.set_rotate_x(radians(mesh_w.rotation.x));
+        roty_matrix.set_rotate_y(radians(mesh_w.rotation.y));
+        rotz_matrix.set_rotate_z(radians(mesh_w.rotation.z));
         rotation_matrix = rotz_matrix*roty_matrix*rotx_matrix;
         scale_matrix.set_scale(mesh_w.scale);
         //watchout the order!!!
-- 
2.43.0


From 5600a9c4f8f0ecc40bfc380bef5780ab9b72d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 66/80] fix: settings written in the children of a scene file
 were ignored

---
 src/parsers/config_driver.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index dffdec5..62510b6 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -52,17 +52,6 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     yy::ConfigParser parser(*this);
     parser.parse();
     scan_end();
-    check_resolution();
-    check_spp();
-#ifdef DEBUG //single threaded
-    r = new Renderer(width, height, spp, output.c_str(), 1);
-#else //maximum threads
-    r = new Renderer(width,height,spp,output.c_str());
-#endif
-    r->set_sampler(sampler_type);
-    r->inherit_camera(build_camera());
-    r->inherit_filter(build_filter());
-    r->inherit_integrator(integrator);
 
     //load children files
     //avoid recursive children
@@ -88,6 +77,19 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     consolidated_children.resize(0);
     children.resize(0);
 
+    //the children could have changed the settings as well
+    check_resolution();
+    check_spp();
+#ifdef DEBUG //single threaded
+    r = new Renderer(width, height, spp, output.c_str(), 1);
+#else //maximum threads
+    r = new Renderer(width,height,spp,output.c_str());
+#endif
+    r->set_sampler(sampler_type);
+    r->inherit_camera(build_camera());
+    r->inherit_filter(build_filter());
+    r->inherit_integrator(integrator);
+
     //build default sphere
     default_sphere = new Sphere();
     current_scene->inherit_shape(default_sphere);
-- 
2.43.0


From 36cb9971d92277898022a2faaa7d2a5b4cfb85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:56 +0000
Subject: [PATCH 67/80] fix: every child of a scene file moved the folder of
 the paths that follow

---
 src/parsers/config_driver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 62510b6..e275c31 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -59,9 +59,12 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     children.clear();
     for(unsigned int i = 0; i<consolidated_children.size(); i++)
     {
-        File file1 = is_absolute(consolidated_children[i].c_str())?
-                     File(consolidated_children[i].c_str()):
-                     current_dir.append(consolidated_children[i].c_str());
+        //current_dir is used by the next files and it must not be modified
+        File file1 = current_dir;
+        if(is_absolute(consolidated_children[i].c_str()))
+            file1 = File(consolidated_children[i].c_str());
+        else
+            file1.append(consolidated_children[i].c_str());
         file = file1.absolute_path();
         if(file1.exists())
         {
-- 
2.43.0


From 83a1a260207134f1a0ad9fe704b2b36ff1a4ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:56 +0000
Subject: [PATCH 68/80] fix: children of a scene file that can not be read
 ended the program

---
 src/parsers/config_driver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index e275c31..c0782df 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -1,6 +1,8 @@
 //author: Davide Pizzolotto
 //license: GNU GPLv3
 
+#include <cerrno>
+#include <cstring>
 #include "config_driver.hpp"
 
 ///minimum value for ParsedMaterial::rough_x when the material is not specular
@@ -66,14 +68,16 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
         else
             file1.append(consolidated_children[i].c_str());
         file = file1.absolute_path();
-        if(file1.exists())
+        if(file1.exists() && !file1.is_folder() && file1.readable())
         {
             scan_begin();
             parser.parse();
             scan_end();
         }
         else
-            Console.severe(MESSAGE_INPUT_ERROR, file.c_str());
+            Console.severe(MESSAGE_INPUT_ERROR, file.c_str(),
+                           strerror(file1.is_folder()?EISDIR:
+                                    file1.exists()?EACCES:ENOENT));
     }
     //free some memory
     consolidated_children.clear();
-- 
2.43.0


From 449add967f4a3d82de1d8493379aaa8ce194038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:47 +0000
Subject: [PATCH 69/80] fix: relative paths of the children of a scene file
 ignored the folder of the child

---
 src/parsers/config_driver.cpp | 62 ++++++++++++++++++++++++-----------
 src/parsers/config_driver.hpp | 18 +++++++++-
 2 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index c0782df..4053e6c 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -8,7 +8,7 @@
 ///minimum value for ParsedMaterial::rough_x when the material is not specular
 #define MIN_ROUGHNESS 0.001f
 
-ParsedMaterial::ParsedMaterial()
+ParsedMaterial::ParsedMaterial():folder(".")
 {
     elem = METAL_GOLD;
     type = MATTE;
@@ -50,10 +50,8 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     current_scene = scene;
     current_dir = File(f.c_str()).get_parent();
     file = f;
-    scan_begin();
     yy::ConfigParser parser(*this);
-    parser.parse();
-    scan_end();
+    parse_file(&parser);
 
     //load children files
     //avoid recursive children
@@ -70,9 +68,11 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
         file = file1.absolute_path();
         if(file1.exists() && !file1.is_folder() && file1.readable())
         {
-            scan_begin();
-            parser.parse();
-            scan_end();
+            //paths inside a child are relative to the child itself
+            File parent_dir = current_dir;
+            current_dir = file1.get_parent();
+            parse_file(&parser);
+            current_dir = parent_dir;
         }
         else
             Console.severe(MESSAGE_INPUT_ERROR, file.c_str(),
@@ -137,6 +137,33 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     return r;
 }
 
+void ConfigDriver::parse_file(yy::ConfigParser* parser)
+{
+    size_t mats = deferred_materials.size();
+    size_t dualmats = deferred_dualmats.size();
+    size_t objs = deferred_shapes.size();
+    size_t meshes = deferred_meshes.size();
+    scan_begin();
+    parser->parse();
+    scan_end();
+    //the relative paths will be needed later, when parsing some other file
+    for(; mats<deferred_materials.size(); mats++)
+        deferred_materials[mats].folder = current_dir;
+    for(; dualmats<deferred_dualmats.size(); dualmats++)
+        deferred_dualmats[dualmats].mask.folder = current_dir;
+    for(; meshes<deferred_meshes.size(); meshes++)
+        deferred_meshes[meshes].mask.folder = current_dir;
+    for(; objs<deferred_shapes.size(); objs++)
+    {
+        if(!is_absolute(deferred_shapes[objs].c_str()))
+        {
+            File obj = current_dir;
+            obj.append(deferred_shapes[objs].c_str());
+            deferred_shapes[objs] = obj.absolute_path();
+        }
+    }
+}
+
 void ConfigDriver::check_resolution()
 {
     int rem = width%SPLIT_SIZE;
@@ -267,10 +294,11 @@ const TextureUniform* ConfigDriver::load_texture_uniform()
     return val;
 }
 
-const TextureImage* ConfigDriver::load_texture(const std::string& path)
+const TextureImage* ConfigDriver::load_texture(const std::string& path,
+                                               const File& folder)
 {
 
-    File cur_file = current_dir;
+    File cur_file = folder;
     const TextureImage* addme;
     if(is_absolute(path.c_str()))
         //TODO: avoid recreating the cur_file class
@@ -326,7 +354,7 @@ void ConfigDriver::build_materials()
             if(mat->diffuse.empty())
                 diffuse = TexLib.get_dflt_teximage();
             else
-                diffuse = load_texture(mat->diffuse);
+                diffuse = load_texture(mat->diffuse, mat->folder);
         }
         else
             diffuse = mat->diffuse_uniform;
@@ -337,7 +365,7 @@ void ConfigDriver::build_materials()
             if(mat->specular.empty())
                 specular = TexLib.get_dflt_teximage();
             else
-                specular = load_texture(mat->specular);
+                specular = load_texture(mat->specular, mat->folder);
         }
         else
             specular = mat->specular_uniform;
@@ -364,7 +392,7 @@ void ConfigDriver::build_materials()
                        (const TextureImage*)load_texture(mat->bump), RED);
             ```
              */
-            bump_map = new TextureNormal((const TextureImage*)load_texture(mat->bump));
+            bump_map = new TextureNormal(load_texture(mat->bump, mat->folder));
         }
         else
             bump_map = new Bump();
@@ -531,11 +559,7 @@ void ConfigDriver::build_dualmaterials()
 void ConfigDriver::parse_and_allocate_obj(const char* obj_file)
 {
     //existence check is left to ParserObj class
-    File f = current_dir;
-    if(!is_absolute(obj_file))
-        f.append(obj_file);
-    else
-        f = File(obj_file);
+    File f(obj_file);
     if(strcmp(f.extension(), "obj") != 0)
     {
         Console.severe(MESSAGE_OBJ_ERROR, f.absolute_path(), f.extension());
@@ -708,12 +732,12 @@ MaskBoolean ConfigDriver::build_mask(const ParsedMask& mask)
         map = NULL;
     else
     {
-        map = load_texture(mask.mask_tex);
+        map = load_texture(mask.mask_tex, mask.folder);
     }
     return MaskBoolean(map, mask.mask_chn, mask.mask_inv);
 }
 
-ParsedMask::ParsedMask()
+ParsedMask::ParsedMask():folder(".")
 {
     mask_inv = false;
     mask_chn = ALPHA;
diff --git a/src/parsers/config_driver.hpp b/src/parsers/config_driver.hpp
index 43a9523..e329683 100644
--- a/src/parsers/config_driver.hpp
+++ b/src/parsers/config_driver.hpp
@@ -112,6 +112,9 @@ public:
     ///Name of the bump texture, as it can be found in the TextureLibrary
     std::string bump;
 
+    ///Folder of the file containing this material, for the relative paths
+    File folder;
+
     ///True if the bump map is a normal map
     //EDIT: Heightmaps have been removed so every bump is normal
     //bool bump_is_normal;
@@ -154,6 +157,9 @@ public:
     ///true if the texture used as mask should be inverted
     bool mask_inv;
 
+    ///Folder of the file containing this mask, for the relative paths
+    File folder;
+
     ///default constructor of parsed mask
     ParsedMask();
 };
@@ -308,6 +314,9 @@ public:
     ///An SDL representing a Sphere. Used when the MeshObject name is "Sphere"
     Sphere* default_sphere;
 
+    ///Parse the current file, found in the current directory
+    void parse_file(yy::ConfigParser* parser);
+
     ///Begin the scannin routine. Defined in the file generated by flex
     void scan_begin();
 
@@ -390,7 +399,14 @@ public:
     Vec2 tex_shift;
 
     ///Load a texture and the corresponding map given the path on disk
-    const TextureImage* load_texture(const std::string& path);
+    const TextureImage* load_texture(const std::string& path)
+    {
+        return load_texture(path, current_dir);
+    }
+
+    ///Load a texture given the path on disk, relative to the given folder
+    const TextureImage* load_texture(const std::string& path,
+                                     const File& folder);
 
     ///Hold all the maps, used to set them the filter after parsing
     std::vector<ImageMap*> all_textures;
-- 
2.43.0


From dc1b29f8d2b5dd6cd8998f42a26719bdd9ee5ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:43 +0000
Subject: [PATCH 70/80] fix: image files with the same name were confused when
 used by materials and masks

---
 src/parsers/config_driver.cpp | 36 +++++++++++++++++++++++++++--------
 src/parsers/config_driver.hpp | 18 ++++++++++++------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 4053e6c..5ff8fe4 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -294,12 +294,10 @@ const TextureUniform* ConfigDriver::load_texture_uniform()
     return val;
 }
 
-const TextureImage* ConfigDriver::load_texture(const std::string& path,
-                                               const File& folder)
+const TextureImage* ConfigDriver::load_texture(const std::string& path)
 {
 
-    File cur_file = folder;
-    const TextureImage* addme;
+    File cur_file = current_dir;
     if(is_absolute(path.c_str()))
         //TODO: avoid recreating the cur_file class
         cur_file = File(path.c_str());
@@ -308,6 +306,28 @@ const TextureImage* ConfigDriver::load_texture(const std::string& path,
     //resolve texture name
     if(tex_name.empty())
         tex_name = cur_file.filename();
+    return load_texture(cur_file);
+}
+
+const TextureImage* ConfigDriver::find_texture(const std::string& name,
+                                               const File& folder)
+{
+    //the name of a texture
+    if(TexLib.contains_texture(name))
+        return TexLib.get_texture(name);
+    //or else the path of an image, files with the same name can be different
+    File cur_file = folder;
+    if(is_absolute(name.c_str()))
+        cur_file = File(name.c_str());
+    else
+        cur_file.append(name.c_str());
+    tex_name = cur_file.absolute_path();
+    return load_texture(cur_file);
+}
+
+const TextureImage* ConfigDriver::load_texture(const File& cur_file)
+{
+    const TextureImage* addme;
     if(TexLib.contains_texture(tex_name))
         //TexLib already contains TextureImage
         addme = (TextureImage*)TexLib.get_texture(tex_name);
@@ -354,7 +374,7 @@ void ConfigDriver::build_materials()
             if(mat->diffuse.empty())
                 diffuse = TexLib.get_dflt_teximage();
             else
-                diffuse = load_texture(mat->diffuse, mat->folder);
+                diffuse = find_texture(mat->diffuse, mat->folder);
         }
         else
             diffuse = mat->diffuse_uniform;
@@ -365,7 +385,7 @@ void ConfigDriver::build_materials()
             if(mat->specular.empty())
                 specular = TexLib.get_dflt_teximage();
             else
-                specular = load_texture(mat->specular, mat->folder);
+                specular = find_texture(mat->specular, mat->folder);
         }
         else
             specular = mat->specular_uniform;
@@ -392,7 +412,7 @@ void ConfigDriver::build_materials()
                        (const TextureImage*)load_texture(mat->bump), RED);
             ```
              */
-            bump_map = new TextureNormal(load_texture(mat->bump, mat->folder));
+            bump_map = new TextureNormal(find_texture(mat->bump, mat->folder));
         }
         else
             bump_map = new Bump();
@@ -732,7 +752,7 @@ MaskBoolean ConfigDriver::build_mask(const ParsedMask& mask)
         map = NULL;
     else
     {
-        map = load_texture(mask.mask_tex, mask.folder);
+        map = find_texture(mask.mask_tex, mask.folder);
     }
     return MaskBoolean(map, mask.mask_chn, mask.mask_inv);
 }
diff --git a/src/parsers/config_driver.hpp b/src/parsers/config_driver.hpp
index e329683..cbddad2 100644
--- a/src/parsers/config_driver.hpp
+++ b/src/parsers/config_driver.hpp
@@ -399,13 +399,19 @@ public:
     Vec2 tex_shift;
 
     ///Load a texture and the corresponding map given the path on disk
-    const TextureImage* load_texture(const std::string& path)
-    {
-        return load_texture(path, current_dir);
-    }
+    const TextureImage* load_texture(const std::string& path);
 
-    ///Load a texture given the path on disk, relative to the given folder
-    const TextureImage* load_texture(const std::string& path,
+    ///Load a texture with name tex_name and the corresponding map, given a file
+    const TextureImage* load_texture(const File& cur_file);
+
+    /**
+     *  \brief Texture required by a material or a mask
+     *
+     *  \param[in] name The name of a texture in the Texture Library or the path
+     *  of an image that will be loaded
+     *  \param[in] folder The folder used if the path of the image is relative
+     */
+    const TextureImage* find_texture(const std::string& name,
                                      const File& folder);
 
     ///Hold all the maps, used to set them the filter after parsing
-- 
2.43.0


From b7390d9e0322b8ddeef7d5d67d7d74dee6858714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:43 +0000
Subject: [PATCH 71/80] fix: inverted masks with a missing texture hid the
 entire object

---
 src/parsers/config_driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 5ff8fe4..f7906d8 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -753,6 +753,9 @@ MaskBoolean ConfigDriver::build_mask(const ParsedMask& mask)
     else
     {
         map = find_texture(mask.mask_tex, mask.folder);
+        //texture not found, the mask is disabled even if inverted
+        if(map == TexLib.get_dflt_teximage())
+            map = NULL;
     }
     return MaskBoolean(map, mask.mask_chn, mask.mask_inv);
 }
-- 
2.43.0


From 677b160af7a7fcbdd46025eeb1a7aac6c3e833ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:43 +0000
Subject: [PATCH 72/80] fix: missing or duplicate names of dual materials were
 not reported

---
 src/parsers/config_driver.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index f7906d8..ec6e981 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -563,14 +563,32 @@ void ConfigDriver::build_dualmaterials()
     for(int i = 0; i<(int)deferred_dualmats.size(); i++)
     {
         mat = &deferred_dualmats[i];
+
+        //avoid processing if material already exists
+        if(MtlLib.contains(mat->name))
+        {
+            Console.warning(MESSAGE_DUPLICATE_MATERIAL, mat->name.c_str());
+            continue;
+        }
+
         if(MtlLib.contains(mat->first))
             first = MtlLib.get(mat->first);
         else
+        {
             first = MtlLib.get_default();
+            if(!mat->first.empty())
+                Console.warning(MESSAGE_MISSING_MATERIAL, mat->first.c_str(),
+                                mat->name.c_str());
+        }
         if(MtlLib.contains(mat->second))
             second = MtlLib.get(mat->second);
         else
+        {
             second = MtlLib.get_default();
+            if(!mat->second.empty())
+                Console.warning(MESSAGE_MISSING_MATERIAL, mat->second.c_str(),
+                                mat->name.c_str());
+        }
         material = new DualBsdf(first, second, build_mask(mat->mask));
         MtlLib.add_inherit(mat->name, material);
     }
-- 
2.43.0


From 76ff783e64c46d1993f02f316f887738aac7b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:41 +0000
Subject: [PATCH 73/80] fix: resolution and samples per pixel of the scene
 files could be zero

---
 src/localization.h            |  2 ++
 src/parsers/config_driver.cpp | 26 +++++++++++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/localization.h b/src/localization.h
index e3967a2..8499930 100644
--- a/src/localization.h
+++ b/src/localization.h
@@ -63,6 +63,8 @@
 #define MESSAGE_RESOLUTION_CHANGED "Rendered image width should be a multiple "\
 "of %d for performance reasons. Resolution has been adjusted to %dx%d"
 
+#define MESSAGE_NOT_POSITIVE "The value of %s must be positive. Using %d"
+
 #define MESSAGE_SPP_CHANGED "While using a Stratified Sampler, samples per " \
 "pixel should be a perfect square. Using %d samples"
 
diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index ec6e981..3973bbe 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -8,6 +8,11 @@
 ///minimum value for ParsedMaterial::rough_x when the material is not specular
 #define MIN_ROUGHNESS 0.001f
 
+///resolution and samples per pixel used if not specified in the input file
+#define DEFAULT_WIDTH 800
+#define DEFAULT_HEIGHT 600
+#define DEFAULT_SPP 121
+
 ParsedMaterial::ParsedMaterial():folder(".")
 {
     elem = METAL_GOLD;
@@ -28,9 +33,9 @@ ConfigDriver::ConfigDriver()
          camera_up(0, 1, 0)
 {
     output = "out.ppm";
-    width = 800;
-    height = 600;
-    spp = 121;
+    width = DEFAULT_WIDTH;
+    height = DEFAULT_HEIGHT;
+    spp = DEFAULT_SPP;
     sampler_type = SPECTRE_SAMPLER_STRATIFIED;
     camera_type = SPECTRE_CAMERA_PERSPECTIVE;
     filter_type = SPECTRE_FILTER_MITCHELL;
@@ -166,6 +171,16 @@ void ConfigDriver::parse_file(yy::ConfigParser* parser)
 
 void ConfigDriver::check_resolution()
 {
+    if(width<=0)
+    {
+        Console.warning(MESSAGE_NOT_POSITIVE, "width", DEFAULT_WIDTH);
+        width = DEFAULT_WIDTH;
+    }
+    if(height<=0)
+    {
+        Console.warning(MESSAGE_NOT_POSITIVE, "height", DEFAULT_HEIGHT);
+        height = DEFAULT_HEIGHT;
+    }
     int rem = width%SPLIT_SIZE;
     if(rem != 0)
     {
@@ -180,6 +195,11 @@ void ConfigDriver::check_resolution()
 
 void ConfigDriver::check_spp()
 {
+    if(spp<=0)
+    {
+        Console.warning(MESSAGE_NOT_POSITIVE, "spp", DEFAULT_SPP);
+        spp = DEFAULT_SPP;
+    }
     if(sampler_type == SPECTRE_SAMPLER_STRATIFIED)
     {
         float root = sqrtf((float)spp);
-- 
2.43.0


From bf9322c62549f83a4d1ea4061c6fd3430c29a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:32 +0000
Subject: [PATCH 74/80] fix: texture filter ignored by the textures written
 before it

---
 src/parsers/config_driver.cpp | 34 ++++++++++++++++++++++++----------
 src/parsers/config_driver.hpp | 33 +++++++++++++++++++++++++++++----
 2 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 3973bbe..707ef5d 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -107,6 +107,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     current_scene->inherit_shape(default_sphere);
 
     //build deferred objects
+    build_textures();
     build_materials();
     build_dualmaterials();
     for(unsigned int i = 0; i<deferred_shapes.size(); i++)
@@ -130,7 +131,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     }
 
     //delete everything else used for parsing
-    all_textures.clear();
+    deferred_textures.clear();
     children.clear();
     deferred_materials.clear();
     deferred_dualmats.clear();
@@ -314,19 +315,32 @@ const TextureUniform* ConfigDriver::load_texture_uniform()
     return val;
 }
 
-const TextureImage* ConfigDriver::load_texture(const std::string& path)
+void ConfigDriver::load_texture(const std::string& path)
 {
-
-    File cur_file = current_dir;
+    ParsedTexture addme(current_dir);
     if(is_absolute(path.c_str()))
-        //TODO: avoid recreating the cur_file class
-        cur_file = File(path.c_str());
+        addme.src = File(path.c_str());
     else
-        cur_file.append(path.c_str());
+        addme.src.append(path.c_str());
     //resolve texture name
-    if(tex_name.empty())
-        tex_name = cur_file.filename();
-    return load_texture(cur_file);
+    addme.name = tex_name.empty()?addme.src.filename():tex_name;
+    addme.scale = tex_scale;
+    addme.shift = tex_shift;
+    deferred_textures.push_back(addme);
+    tex_name.clear(); //reset name for next texture
+    tex_scale = Vec2(1.f); //reset scaling for next texture
+    tex_shift = Vec2(); //reset shifting for next texture
+}
+
+void ConfigDriver::build_textures()
+{
+    for(int i = 0; i<(int)deferred_textures.size(); i++)
+    {
+        tex_name = deferred_textures[i].name;
+        tex_scale = deferred_textures[i].scale;
+        tex_shift = deferred_textures[i].shift;
+        load_texture(deferred_textures[i].src);
+    }
 }
 
 const TextureImage* ConfigDriver::find_texture(const std::string& name,
diff --git a/src/parsers/config_driver.hpp b/src/parsers/config_driver.hpp
index cbddad2..4efbe07 100644
--- a/src/parsers/config_driver.hpp
+++ b/src/parsers/config_driver.hpp
@@ -143,6 +143,28 @@ struct MeshObject
     unsigned char* association;
 };
 
+///Class used to hold information about a texture, until the filter is parsed
+class ParsedTexture
+{
+public:
+
+    ///name of the texture
+    std::string name;
+
+    ///location on disk of the texture
+    File src;
+
+    ///scaling factor of the texture
+    Vec2 scale;
+
+    ///shift factor of the texture
+    Vec2 shift;
+
+    ///Initialize the class with the location of the texture
+    ParsedTexture(const File& src):src(src)
+    {};
+};
+
 ///Class used to hold information about a mask, until the texture are parsed
 class ParsedMask
 {
@@ -398,8 +420,8 @@ public:
     ///Shift factor of the texture
     Vec2 tex_shift;
 
-    ///Load a texture and the corresponding map given the path on disk
-    const TextureImage* load_texture(const std::string& path);
+    ///Parse a texture given the path on disk, it will be loaded later
+    void load_texture(const std::string& path);
 
     ///Load a texture with name tex_name and the corresponding map, given a file
     const TextureImage* load_texture(const File& cur_file);
@@ -414,8 +436,11 @@ public:
     const TextureImage* find_texture(const std::string& name,
                                      const File& folder);
 
-    ///Hold all the maps, used to set them the filter after parsing
-    std::vector<ImageMap*> all_textures;
+    ///List of textures that will be added after parsing the texture filter
+    std::vector<ParsedTexture> deferred_textures;
+
+    ///Add the textures contained in the deferred_textures array
+    void build_textures();
 
     ///Type of filtering that will be used on the textures
     TextureFilter_t tex_filter;
-- 
2.43.0


From 289a8ad75c3839457e50878429361f2c6eb55d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:58 +0000
Subject: [PATCH 75/80] fix: duplicate names of textures were not reported

---
 src/parsers/config_driver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 707ef5d..d029b79 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -336,6 +336,13 @@ void ConfigDriver::build_textures()
 {
     for(int i = 0; i<(int)deferred_textures.size(); i++)
     {
+        //avoid processing if texture already exists
+        if(TexLib.contains_texture(deferred_textures[i].name))
+        {
+            Console.warning(MESSAGE_DUPLICATE_TEXTURE,
+                            deferred_textures[i].name.c_str());
+            continue;
+        }
         tex_name = deferred_textures[i].name;
         tex_scale = deferred_textures[i].scale;
         tex_shift = deferred_textures[i].shift;
-- 
2.43.0


From ba2ac3fdb08f86b3e26e8f466172a5eb5cb76daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:46 +0000
Subject: [PATCH 76/80] fix: Oren-Nayar lost the side of the directions around
 the normal

---
 src/materials/oren_nayar.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/materials/oren_nayar.cpp b/src/materials/oren_nayar.cpp
index 2e2d22c..846afc3 100644
--- a/src/materials/oren_nayar.cpp
+++ b/src/materials/oren_nayar.cpp
@@ -37,8 +37,9 @@ Spectrum OrenNayar::value(const Vec3* wout, const Vec3* wincident) const
         float cosphiin, cosphiout, sinphiin, sinphiout;
         cosphiin = clamp(wincident->x/sinthetain, -1.f, 1.f);
         cosphiout = clamp(wout->x/sinthetaout, -1.f, 1.f);
-        sinphiin = max(0.f, sqrtf(1.f-cosphiin*cosphiin));
-        sinphiout = max(0.f, sqrtf(1.f-cosphiout*cosphiout));
+        //the sign depends on the side, sqrt(1-cos*cos) would lose it
+        sinphiin = clamp(wincident->y/sinthetain, -1.f, 1.f);
+        sinphiout = clamp(wout->y/sinthetaout, -1.f, 1.f);
         maxcos = max(0.0f, cosphiin*cosphiout+sinphiin*sinphiout);
     }
     else
-- 
2.43.0


From 585d4ca5ed983e317491f4b310265f847a81dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:41 +0000
Subject: [PATCH 77/80] fix: OBJ files that can not be read were not reported

---
 src/parsers/parser_obj.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index bcff92f..e88ae17 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -48,6 +48,9 @@ void ParserObj::start_parsing(const char* path)
     {
         read_bytes = (int)fread(buffer_ro, sizeof(char), BUFFER_SIZE, fin);
         buffer = buffer_ro;
+        //a folder can be opened, but not read
+        if(ferror(fin))
+            Console.severe(MESSAGE_INPUT_ERROR, path, strerror(errno));
     }
     else
         Console.severe(MESSAGE_INPUT_ERROR, path, strerror(errno));
-- 
2.43.0


From 129d424881b411fdc03f7fab6b35394d6c6fb82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:09 +0000
Subject: [PATCH 78/80] fix: total internal reflection was darker than the
 incoming light

---
 src/materials/reflection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/reflection.cpp b/src/materials/reflection.cpp
index af453d4..d48ee7c 100644
--- a/src/materials/reflection.cpp
+++ b/src/materials/reflection.cpp
@@ -100,8 +100,8 @@ Spectrum DielectricReflection::sample_value(const Vec3* wo, Vec3* wi,
         float rperp = (etaicosi-etatcost)/(etaicosi+etatcost);
         float rpar = (etatcosi-etaicost)/(etatcosi+etaicost);
         eval = (rpar*rpar+rperp*rperp)/2.f;
-        eval /= fabsf(wo->z);
     }
+    eval /= fabsf(wo->z);
     return eval;
 }
 
-- 
2.43.0


From 77e9663eca0be7f2b884dfac0729bae967fde1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:06 +0000
Subject: [PATCH 79/80] fix: rough glass with Blinn facets had no density for
 directions it samples

---
 src/materials/microfacet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/materials/microfacet.cpp b/src/materials/microfacet.cpp
index 37bcb78..1bbd5fa 100644
--- a/src/materials/microfacet.cpp
+++ b/src/materials/microfacet.cpp
@@ -179,6 +179,8 @@ float MicrofacetT::pdf(const Vec3* woS, const Vec3* wiS) const
     if(wh.x == 0 && wh.y == 0 && wh.z == 0)
         return 0.f;
     wh.normalize();
+    if(wh.z*woS->z<0) //same side of wo, as the sampled one
+        wh = -wh;
     const float dotwoh = dot(*woS, wh);
     float jacobian = etao*etao*fabsf(dotwoh);
     const float jacobian_denom = (etai*dot(*wiS, wh)+etao*dotwoh);
-- 
2.43.0


From 703435a3aa9fa09537b4f469d8b49c53ad289c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:10 +0000
Subject: [PATCH 80/80] fix: the spectrum of an sRGB colour is weighted by
 linear values

When wavelengths are sampled (spectre-full) the encoded components were used
as weights of the base spectra, so every colour that was not fully saturated
was rendered brighter than it is, unlike in the default build where to_XYZ()
decodes them first.
---
 src/utility/spectrum.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/spectrum.cpp b/src/utility/spectrum.cpp
index f554031..3472cb9 100644
--- a/src/utility/spectrum.cpp
+++ b/src/utility/spectrum.cpp
@@ -480,6 +480,10 @@ Spectrum::Spectrum(ColorRGB c, bool l)
 {
 #ifdef SPECTRAL
     memset(Spectrum::w,0,sizeof(float)*SPECTRUM_SAMPLES);
+    //the spectra below are weighted by linear values, like in to_XYZ()
+    c.r = c.r>0.04045f?powf((c.r+0.055f)/1.055f, 2.4f):c.r/12.92f;
+    c.g = c.g>0.04045f?powf((c.g+0.055f)/1.055f, 2.4f):c.g/12.92f;
+    c.b = c.b>0.04045f?powf((c.b+0.055f)/1.055f, 2.4f):c.b/12.92f;
     if(!l)
     {
         if(c.r<=c.g && c.r<=c.b)
-- 
2.43.0

