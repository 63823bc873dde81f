From 0f79e9a47be087ac94a9a96c67a4a8e54401bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 01/29] fix: compute a new event for the vertex that survives
 an outdated edge event

skeletonize() dropped an edge event whose other vertex had become invalid. The
surviving vertex kept no event in the queue, so its part of the wavefront could
be left behind: missing arcs, faces spanning non-adjacent edges or no skeleton.
---
 bpypolyskel/bpypolyskel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 60c9261..ddc5873 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -856,7 +856,12 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
                 if not i.vertex_a.is_valid or not i.vertex_b.is_valid:
-                   continue
+                    # The event is outdated, but a vertex that survived has no other
+                    # event in the queue, so compute its new next event.
+                    for v in (i.vertex_a, i.vertex_b):
+                        if v.is_valid and v.prev.is_valid and v.next.is_valid:
+                            prioque.put(v.next_event())
+                    continue
                 (arc, events) = slav.handle_edge_event(i)
             elif isinstance(i, _SplitEvent):
                 if not i.vertex.is_valid:
-- 
2.43.0


From ae4e00086b8d3c76a0839a0dcd21cf18cb768c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 02/29] fix: reduce the direction nudge of split candidates

When the bisector is perpendicular to the line to the edge intersection, the
direction was shifted by 1 cm. That moved nodes by several millimetres off the
bisectors (heights wrong by the same amount) and made skeleton edges cross.
---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index ddc5873..c22216a 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -165,7 +165,7 @@ class _LAVertex:
                     linvec = (self.point - i).normalized()
                     edvec = edge.edge.norm
                     if abs(self.bisector.v.cross(linvec) - 1.0) < EPSILON:
-                        linvec = (self.point - i + edvec*0.01 ).normalized()
+                        linvec = (self.point - i + edvec*0.001 ).normalized()
                     if self.bisector.v.cross(linvec) < 0: 
                         edvec = -edvec
 
-- 
2.43.0


From 1ae0d3dbd12ad46255bf008c392a1d4a03b1cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:28 +0000
Subject: [PATCH 03/29] fix: compute the events of both new vertices when a
 split merges two LAVs

When a split event joins two contours (outer contour and a hole, or two holes)
both new vertices live in one LAV, but only the head got a next event. The
other one never moved on: arcs of the skeleton around holes were missing.
---
 bpypolyskel/bpypolyskel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index c22216a..a6889ce 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -416,6 +416,9 @@ class _SLAV:
             if len(l) > 2:
                 self._lavs.append(l)
                 vertices.append(l.head)
+                if len(new_lavs) == 1:
+                    # a merged lav contains both new vertices
+                    vertices.append(v2)
             else:
                 # LAV has collapsed into the line
                 sinks.append(l.head.next.point)
-- 
2.43.0


From 0ddd7d938c7cfffeed6a73cbd9f457ee76351371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:02 +0000
Subject: [PATCH 04/29] fix: use the height of the dormer node itself

handle_dormer_event() gave the node where the two valleys of a dormer meet the
mean distance of the two split events, which may lie further up. The faces of
the dormer and of the main roof were not planar.
---
 bpypolyskel/bpypolyskel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index a6889ce..a1f8ed4 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -331,7 +331,10 @@ class _SLAV:
         arcs.append( Subtree(ev_edge.intersection_point, ev_edge.distance, [ev_edge.vertex_a.point,ev_edge.vertex_b.point,p] ) )
 
         # from split events
-        arcs.append( Subtree(p, (ev_prev.distance+ev_next.distance)/2.0, [v_prev.point,v_next.point])   )
+        # the height of p is its own distance to the edges (the split events
+        # may be located further up on the bisectors)
+        height = (Line2(v_prev.edge_prev).distance(p) + Line2(v_next.edge_next).distance(p)) / 2.0
+        arcs.append( Subtree(p, height, [v_prev.point,v_next.point])   )
     
         for v in toRemove:
             v.invalidate()
-- 
2.43.0


From efb85f769653d9e659a93af065fc6b31c814f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 05/29] fix: don't lose a skeleton edge when a node cluster is
 merged

mergeCluster() removed the sink of an outside node instead of redirecting it,
when the merged node was 'equal' to that sink: vectors of mathutils compare
equal when they differ in the last digit.
---
 bpypolyskel/bpypolyskel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index a1f8ed4..58478ff 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -665,12 +665,16 @@ def mergeCluster(skeleton, cluster):
     for arc in skeleton:
         if arc.source not in mergedSources:
             to_remove = []
+            redirected = False
             for i,sink in enumerate(arc.sinks):
                 if sink in mergedSources:
-                    if new_source in arc.sinks:
+                    # don't test for 'new_source in arc.sinks' here, vectors of
+                    # mathutils that differ in the last digit are equal
+                    if redirected:
                         to_remove.append(i)
                     else: 
                         arc.sinks[i] = new_source
+                        redirected = True
             for i in sorted(to_remove, reverse = True):
                 del arc.sinks[i]
 
-- 
2.43.0


From 52080c87310d4befa73c621a06f787e82817c086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 06/29] fix: give vertices between collinear edges a valid
 bisector

The bisector of a vertex was the sum of the two opposite edge directions, which
vanishes for collinear edges and leaves only rounding noise as its direction.
A footprint vertex in the middle of a straight wall, or two walls that become
aligned while the polygon shrinks, gave wrong or overlapping faces.
---
 bpypolyskel/bpypolyskel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 58478ff..fdc2a56 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -117,7 +117,14 @@ class _LAVertex:
         if forceConvex:
             self._is_reflex = False
         op_add_result = creator_vectors[0] + creator_vectors[1]
-        self._bisector = Ray2(self.point, op_add_result * (-1 if self._is_reflex else 1))
+        if op_add_result.magnitude < 10.*EPSILON:
+            # collinear edges: the sum has no usable direction, the bisector is the
+            # perpendicular of the edges, pointing into the polygon
+            edge_vector = edge_prev.norm + edge_next.norm
+            self._is_reflex = False
+            self._bisector = Ray2(self.point, mathutils.Vector((-edge_vector.y, edge_vector.x)))
+        else:
+            self._bisector = Ray2(self.point, op_add_result * (-1 if self._is_reflex else 1))
         # Vertex created
 
     def invalidate(self):
-- 
2.43.0


From 38918f88286b5b5932e679ed42e6e65f38e35893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 07/29] fix: don't crash on a dormer pattern whose valleys
 don't meet

intersect() returns None for parallel or diverging bisectors, which then ended
in a TypeError in handle_dormer_event().
---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index fdc2a56..ffd7422 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -807,6 +807,8 @@ def processDormers(dormers,initialEvents):
             v_prev = ev_prev.vertex
             v_next = ev_next.vertex
             p = v_prev.bisector.intersect(v_next.bisector)
+            if p is None:   # the bisectors are parallel or diverge, no dormer
+                continue
             d = dormer[1]/2.0
             # process events:                         split1       split2       edge
             dormerEvents.append( DormerEvent(d, p, [d_events[0], d_events[3] ,d_events[1]]) )
-- 
2.43.0


From 028f4bbb74359c7d6cc080f422aea278ef57af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 08/29] fix: only handle symmetric protrusions as dormers

A protrusion with sides of different length was accepted as a dormer, although
its valleys meet at different heights: the node got their mean height and the
adjacent faces were not planar.
---
 bpypolyskel/bpypolyskel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index ffd7422..471cf5b 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -809,6 +809,9 @@ def processDormers(dormers,initialEvents):
             p = v_prev.bisector.intersect(v_next.bisector)
             if p is None:   # the bisectors are parallel or diverge, no dormer
                 continue
+            # p lies on both valleys, a dormer needs the same height of p on both of them
+            if abs( Line2(v_prev.edge_prev).distance(p) - Line2(v_next.edge_next).distance(p) ) > 0.1:
+                continue
             d = dormer[1]/2.0
             # process events:                         split1       split2       edge
             dormerEvents.append( DormerEvent(d, p, [d_events[0], d_events[3] ,d_events[1]]) )
-- 
2.43.0


From 5b29052d356667818961aa2525bc4466e62e9bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 09/29] fix: merge coincident nodes in the center of an apse

Merging was suppressed for all nodes near the center of an apse, even for those
that coincide there. The faces got edges of zero length: ZeroDivisionError when
the edges of such a node are sorted, or faces with repeated vertices.
---
 bpypolyskel/bpypolyskel.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 471cf5b..0735ef2 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -603,7 +603,8 @@ def findClusters(skeleton, candidates, contourVertices, edgeContours, thresh):
             if c in candidates:
                 candidates.remove(c)
         if len(cluster)>1:
-            # if cluster is near to an apse center, don't merge any nodes
+            # if cluster is near to an apse center, don't merge any nodes,
+            # except of those that coincide
             if apseCenters:
                 isApseCluster = False
                 for apseCenter in apseCenters:
@@ -614,7 +615,16 @@ def findClusters(skeleton, candidates, contourVertices, edgeContours, thresh):
                     if isApseCluster:
                         break
                 if isApseCluster:
-                    continue
+                    coincident = []
+                    for c in cluster:
+                        arc = skeleton[c]
+                        if abs(ref.source.x-arc.source.x) + abs(ref.source.y-arc.source.y) < 0.001:
+                            coincident.append(c)
+                        else:
+                            candidates.append(c)
+                    if len(coincident) < 2:
+                        continue
+                    cluster = coincident
 
             # detect sinks in this cluster, that are contour vertices of the footprint
             nrOfContourSinks = 0
-- 
2.43.0


From be4c2f4b3d519dd6de227e20ee4618f19bd9a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:58 +0000
Subject: [PATCH 10/29] fix: let coincident neighbors of the wavefront meet

Several vertices that reach the same point (the center of an apse) get new
vertices there, whose rays miss each other by rounding errors. They got no
event and the faces of the first and the last edge of the apse were merged.
---
 bpypolyskel/bpypolyskel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 0735ef2..d121b0c 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -203,6 +203,13 @@ class _LAVertex:
         i_prev = self.bisector.intersect(self.prev.bisector)
         i_next = self.bisector.intersect(self.next.bisector)
 
+        # neighbors that coincide meet where they are, even if their rays
+        # miss each other due to rounding errors (center of an apse)
+        if i_prev is None and (self.point-self.prev.point).length < 0.001:
+            i_prev = self.point
+        if i_next is None and (self.point-self.next.point).length < 0.001:
+            i_next = self.point
+
         if i_prev is not None:
             events.append(_EdgeEvent(Line2(self.edge_prev).distance(i_prev), i_prev, self.prev, self))
         if i_next is not None:
-- 
2.43.0


From d75596b429cd00bb1630266009b226d3d902ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 11/29] fix: read the status of a last log line without line
 break

The last character of the status was cut off, so a flat roof in the last line
was not skipped.
---
 misc/get_osm_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/get_osm_files.py b/misc/get_osm_files.py
index f53ee66..397e7dd 100644
--- a/misc/get_osm_files.py
+++ b/misc/get_osm_files.py
@@ -21,7 +21,7 @@ with open(logFilepath, 'r') as logFile:
         # Position of the separator between the type of the OSM elemement (way or relation) and
         # the status string
         statusPosition = line.rfind('|')
-        status = line[statusPosition+1:-1]
+        status = line[statusPosition+1:].rstrip('\n')
         if status in ("Flat roof", "Not hipped roof"):
             continue
         # position of the separator between the osm id and the type of the OSM element (way or relation)
-- 
2.43.0


From d50e0fc22afa55d834224ec94ae55b9c45dbecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:45 +0000
Subject: [PATCH 12/29] fix: compute the events of the vertices beside a dormer

---
 bpypolyskel/bpypolyskel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index d121b0c..5b9cd18 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -353,7 +353,10 @@ class _SLAV:
         for v in toRemove:
             v.invalidate()
 
-        return (arcs, [])
+        # the two vertices beside the dormer have become neighbors
+        events = [v.next_event() for v in (v_prev.prev, v_next.next)]
+
+        return (arcs, [ev for ev in events if ev is not None])
 
     def handle_edge_event(self, event):
         sinks = []
-- 
2.43.0


From 52b06c0ad0aba9bcd007c3cf50e134bac96bff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:45 +0000
Subject: [PATCH 13/29] fix: check the corners beside the dormer itself

---
 bpypolyskel/bpypolyskel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 5b9cd18..bc42fda 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -804,8 +804,8 @@ def detectDormers(slav, edgeContours):
         d = abs(d1-d2)/(d1+d2)  # "contrast" of side edges lengths^2
         d3 = outerContour[(oi[0]+N-1)%N].length_squared()   # length^2 of previous edge
         d4 = outerContour[oi[3]].length_squared()           # length^2 of next edge
-        facLeft = 0.125 if sequence[(s+N-1)%N] != 'L' else 1.5
-        facRight = 0.125 if sequence[(s+4)%N] != 'L' else 1.5
+        facLeft = 0.125 if sequence[(oi[0]+N-1)%N] != 'L' else 1.5
+        facRight = 0.125 if sequence[(oi[0]+4)%N] != 'L' else 1.5
         if w < 100 and d < 0.35 and d3 >= w*facLeft and d4 >= w*facRight:
             dormers.append((oi,(outerContour[oi[1]].p1-outerContour[oi[1]].p2).magnitude))
             
-- 
2.43.0


From 045d4b79d002a99e1c4ecc64c7803f870a1a6f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:57 +0000
Subject: [PATCH 14/29] fix: don't split a wavefront edge behind its end vertex

---
 bpypolyskel/bpypolyskel.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index bc42fda..b2d055c 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -397,8 +397,15 @@ class _SLAV:
                 x = y.next
 
             if x:
-                xprev	= (y.bisector.v.normalized()).cross((event.intersection_point - y.point).normalized()) <= EPSILON
-                xnext	= (x.bisector.v.normalized()).cross((event.intersection_point - x.point).normalized()) >= -EPSILON
+                ybisec = y.bisector.v.normalized()
+                xbisec = x.bisector.v.normalized()
+                yvec = (event.intersection_point - y.point).normalized()
+                xvec = (event.intersection_point - x.point).normalized()
+                ycross = ybisec.cross(yvec)
+                xcross = xbisec.cross(xvec)
+                # on the line of a bisector, the point must not lie behind its vertex
+                xprev	= ycross <= EPSILON and (ycross < -EPSILON or ybisec.dot(yvec) >= 0.0)
+                xnext	= xcross >= -EPSILON and (xcross > EPSILON or xbisec.dot(xvec) >= 0.0)
 
                 if xprev and xnext:
                     break
-- 
2.43.0


From 26e595d5c6488bd51b943156e61ebdca3808bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:25 +0000
Subject: [PATCH 15/29] fix: let neighbors meet whose rays miss each other by
 rounding errors

---
 bpypolyskel/bpypolyskel.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index b2d055c..7c24ddc 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -149,6 +149,17 @@ class _LAVertex:
     def is_valid(self):
         return self._valid
 
+    def meets_nearby(self, other):
+        if (self.point-other.point).length < 0.001:
+            return self.point
+        p = Line2(self.bisector).intersect(Line2(other.bisector))
+        if p is None:
+            return None
+        for vertex in (self, other):
+            if (p-vertex.point).dot(vertex.bisector.v) < 0.0 and (p-vertex.point).length > 0.001:
+                return None
+        return p
+
     def next_event(self):
         events = []
         if self.is_reflex:
@@ -203,12 +214,12 @@ class _LAVertex:
         i_prev = self.bisector.intersect(self.prev.bisector)
         i_next = self.bisector.intersect(self.next.bisector)
 
-        # neighbors that coincide meet where they are, even if their rays
-        # miss each other due to rounding errors (center of an apse)
-        if i_prev is None and (self.point-self.prev.point).length < 0.001:
-            i_prev = self.point
-        if i_next is None and (self.point-self.next.point).length < 0.001:
-            i_next = self.point
+        # neighbors may miss each other due to rounding errors, when their rays
+        # meet just at the start of one of them (center of a round building)
+        if i_prev is None:
+            i_prev = self.meets_nearby(self.prev)
+        if i_next is None:
+            i_next = self.meets_nearby(self.next)
 
         if i_prev is not None:
             events.append(_EdgeEvent(Line2(self.edge_prev).distance(i_prev), i_prev, self.prev, self))
-- 
2.43.0


From bac4f1af0df74f21dc72cd98ddca8788aa4b33fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:08 +0000
Subject: [PATCH 16/29] fix: keep the eave beside a spike into a single face

A spike between a face and one other face on both of its sides was removed
together with its neighbor, which may be a vertex of the footprint. Faces that
were merged along several edges kept lines into their inside.
---
 bpypolyskel/bpypolyskel.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 7c24ddc..93e8d57 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1167,11 +1167,11 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
 
             if rightIndx == leftIndx:   # single line into a face, but not separating it
                 commonFace = faces3D[rightIndx]
-                # remove the spike vertice and one of its neighbors
-                commonFace.remove(this)
-                commonFace.remove(prev)
-                if this in face:
-                    face.remove(this)
+                commonFace.remove(this) # remove the spike vertice
+                if face is commonFace:
+                    commonFace.remove(prev) # and one of its neighbors, that are identical
+                else:
+                    face.remove(this)   # a spike into the common face, its neighbors stay
                 break   # that's it for this face
 
             # rotate right face so that 'prev' is in first place
@@ -1186,6 +1186,17 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
 
             mergedFace = rightFace + leftFace[1:]
 
+            # the faces may have more than one edge in common, remove those lines into the merged face
+            hadLines = True
+            while hadLines:
+                hadLines = False
+                for i in range(len(mergedFace)):
+                    if mergedFace[i-2] == mergedFace[i]:
+                        for j in sorted([i % len(mergedFace), (i-1) % len(mergedFace)], reverse = True):
+                            del mergedFace[j]
+                        hadLines = True
+                        break
+
             # rotate edge list so that edge of original polygon is first edge
             nextOrigIndex = next(x[0] for x in enumerate(mergedFace) if x[0]<firstSkelIndex and x[1]< firstSkelIndex)
             mergedFace = mergedFace[nextOrigIndex:] + mergedFace[:nextOrigIndex]
-- 
2.43.0


From 9ef5bac889cc270cbacb1dbcff5821c5735d5f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:55 +0000
Subject: [PATCH 17/29] fix: don't fit a circle to a straight wall that is
 divided by vertices

---
 bpypolyskel/bpyeuclid.py   | 2 ++
 bpypolyskel/bpypolyskel.py | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpyeuclid.py b/bpypolyskel/bpyeuclid.py
index 7d25e36..007aecd 100644
--- a/bpypolyskel/bpyeuclid.py
+++ b/bpypolyskel/bpyeuclid.py
@@ -102,6 +102,8 @@ def fitCircle3Points(points):
     z = complex(points[-1].x, points[-1].y)
     w = z-x
     w /= y-x
+    if w.imag == 0.0:   # the points are on a straight line
+        return None
     c = (x-y)*(w-abs(w)**2)/2j/w.imag-x
     x0 = -c.real
     y0 = -c.imag
diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 93e8d57..bf14d0c 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -610,7 +610,10 @@ def detectApses(outerContour):
         if s < N and s >= nextStart:
             apseIndices = [ i%len(sequence) for i in range(*apse.span())]
             apseVertices = [outerContour[i].p1 for i in apseIndices]
-            center, R = fitCircle3Points(apseVertices)
+            circle = fitCircle3Points(apseVertices)
+            if circle is None:  # a straight wall divided by vertices, no apse
+                continue
+            center, R = circle
             centers.append(center)
     
     return centers
-- 
2.43.0


From e0d50f9a6a7ecdd6055acb7cc4d53f1a23ba210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:46 +0000
Subject: [PATCH 18/29] fix: don't intersect lines that are parallel up to
 rounding errors

The bisectors of vertices on parallel walls met millions of units away.
---
 bpypolyskel/bpyeuclid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpyeuclid.py b/bpypolyskel/bpyeuclid.py
index 007aecd..5e965bb 100644
--- a/bpypolyskel/bpyeuclid.py
+++ b/bpypolyskel/bpyeuclid.py
@@ -12,7 +12,7 @@ def intersect(A,B,C,D):
 
 def _intersect_line2_line2(A, B):
     d = B.v.y * A.v.x - B.v.x * A.v.y
-    if d == 0:
+    if d*d <= 1e-10 * A.v.length_squared * B.v.length_squared:
         return None
 
     dy = A.p.y - B.p.y
-- 
2.43.0


From 0ea0f9a044a47d969eaeae1999c493e2f2a4e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 19/29] fix: take the events of a dormer in its own order

A dormer that passes over the start of the contour was not handled as dormer.
---
 bpypolyskel/bpypolyskel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index bf14d0c..7b8c88e 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -837,7 +837,8 @@ def processDormers(dormers,initialEvents):
     dormerEventIndices = []
     for dormer in dormers:
         dormerIndices = dormer[0]
-        d_events = [ev for i,ev in enumerate(initialEvents) if i in dormerIndices]
+        # in the order of the dormer, that may pass over the start of the contour
+        d_events = [initialEvents[i] for i in dormerIndices]
         if all([(d is not None) for d in d_events]): # if all events are valid
             if  not isinstance(d_events[0], _SplitEvent) or \
                 not isinstance(d_events[1], _EdgeEvent) or \
-- 
2.43.0


From 1558d355b1d8172b733548e49f7bdc499cbb7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 20/29] fix: skip edge events of vertices that are no longer
 neighbors

---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 7b8c88e..c0f5b0d 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -919,7 +919,7 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         topEventList = prioque.getAllEqualDistance()
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
-                if not i.vertex_a.is_valid or not i.vertex_b.is_valid:
+                if not i.vertex_a.is_valid or not i.vertex_b.is_valid or i.vertex_a.next is not i.vertex_b:
                     # The event is outdated, but a vertex that survived has no other
                     # event in the queue, so compute its new next event.
                     for v in (i.vertex_a, i.vertex_b):
-- 
2.43.0


From 6c4663e50aeb1ae20ac2d32e00f99a2ab53058cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 21/29] fix: don't merge parts of the wavefront that have been
 separated by a split

---
 bpypolyskel/bpypolyskel.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index c0f5b0d..a5b0149 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -239,6 +239,7 @@ class _LAV:
         self.head = None
         self._slav = slav
         self._len = 0
+        self.contours = frozenset()   # contours of the footprint, that this LAV stems from
 
     @classmethod
     # edgeContour is a list of edges of class Edge2
@@ -314,6 +315,8 @@ class _LAV:
 class _SLAV:
     def __init__(self, edgeContours):
         self._lavs = [_LAV.from_polygon(edgeContour, self) for edgeContour in edgeContours]
+        for i,lav in enumerate(self._lavs):
+            lav.contours = frozenset((i,))
 
         # store original polygon edges for calculation of split events
         self._original_edges = [
@@ -347,6 +350,7 @@ class _SLAV:
         v_next.next.prev = v_prev.prev
 
         new_lav = [_LAV.from_chain(lav.head, self)]
+        new_lav[0].contours = lav.contours
         self._lavs.remove(lav)
         self._lavs.append(new_lav[0])
 
@@ -418,7 +422,10 @@ class _SLAV:
                 xprev	= ycross <= EPSILON and (ycross < -EPSILON or ybisec.dot(yvec) >= 0.0)
                 xnext	= xcross >= -EPSILON and (xcross > EPSILON or xbisec.dot(xvec) >= 0.0)
 
-                if xprev and xnext:
+                # LAVs that have been separated by a split can't merge again
+                mergeable = x.lav is lav or not (x.lav.contours & lav.contours)
+
+                if xprev and xnext and mergeable:
                     break
                 else:
                     x = None
@@ -442,6 +449,7 @@ class _SLAV:
         y.next = v2
 
         new_lavs = None
+        contours = lav.contours | x.lav.contours
         self._lavs.remove(lav)
         if lav != x.lav:
             # the split event actually merges two lavs
@@ -451,6 +459,7 @@ class _SLAV:
             new_lavs = [_LAV.from_chain(v1, self), _LAV.from_chain(v2, self)]
 
         for l in new_lavs:
+            l.contours = contours
             if len(l) > 2:
                 self._lavs.append(l)
                 vertices.append(l.head)
-- 
2.43.0


From e0c35340cefa0e61ac09619d5ba448521ab129a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 22/29] fix: don't nudge the direction to the intersection with
 the opposite edge

---
 bpypolyskel/bpypolyskel.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index a5b0149..21b7370 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -182,8 +182,6 @@ class _LAVertex:
                     # locate candidate b
                     linvec = (self.point - i).normalized()
                     edvec = edge.edge.norm
-                    if abs(self.bisector.v.cross(linvec) - 1.0) < EPSILON:
-                        linvec = (self.point - i + edvec*0.001 ).normalized()
                     if self.bisector.v.cross(linvec) < 0: 
                         edvec = -edvec
 
-- 
2.43.0


From caf3a7f72c4a081ae932e5e7b141a0db0db4686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 23/29] fix: let neighbors meet that move on the same line

---
 bpypolyskel/bpypolyskel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 21b7370..59618de 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -154,6 +154,10 @@ class _LAVertex:
             return self.point
         p = Line2(self.bisector).intersect(Line2(other.bisector))
         if p is None:
+            # rays on the same line meet, where the one in front starts
+            for vertex, front in ((self, other), (other, self)):
+                if (front.point-vertex.point).dot(vertex.bisector.v) > 0.0 and Line2(vertex.bisector).distance(front.point) < 0.001:
+                    return front.point
             return None
         for vertex in (self, other):
             if (p-vertex.point).dot(vertex.bisector.v) < 0.0 and (p-vertex.point).length > 0.001:
-- 
2.43.0


From ee5ab9e2a52302ffe949824e4fec40f30363e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 24/29] fix: keep the events of the remaining vertices of an
 outdated dormer

---
 bpypolyskel/bpypolyskel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 59618de..548a5a6 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -943,7 +943,12 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
                     continue
                 (arc, events) = slav.handle_split_event(i)
             elif isinstance(i, DormerEvent):
-                if not i.eventList[0].vertex.is_valid or not i.eventList[1].vertex.is_valid:
+                dormerVertices = (i.eventList[0].vertex, i.eventList[2].vertex_a, i.eventList[2].vertex_b, i.eventList[1].vertex)
+                if not all(v.is_valid for v in dormerVertices):
+                    # the events of the remaining vertices have been replaced by this event
+                    for v in dormerVertices:
+                        if v.is_valid:
+                            prioque.put(v.next_event())
                     continue
                 (arc, events) = slav.handle_dormer_event(i)
             prioque.put_all(events)
-- 
2.43.0


From 631d66ecf8338b040756335ef27a30b59e6e03eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 25/29] fix: finish a horizontal ridge before other events of
 the same height

---
 bpypolyskel/bpypolyskel.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 548a5a6..6996444 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -141,6 +141,11 @@ class _LAVertex:
     def is_reflex(self):
         return self._is_reflex
 
+    @property
+    def on_ridge(self):
+        # between antiparallel edges, the vertex moves on a horizontal ridge at once
+        return self.edge_prev.norm.dot(self.edge_next.norm) < EPSILON-1.0
+
     @property
     def original_edges(self):
         return self.lav._slav._original_edges
@@ -928,7 +933,8 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
 
     while not (prioque.empty() or slav.empty()):
         topEventList = prioque.getAllEqualDistance()
-        for i in topEventList:
+        while topEventList:
+            i = topEventList.pop(0)
             if isinstance(i, _EdgeEvent):
                 if not i.vertex_a.is_valid or not i.vertex_b.is_valid or i.vertex_a.next is not i.vertex_b:
                     # The event is outdated, but a vertex that survived has no other
@@ -951,7 +957,12 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
                             prioque.put(v.next_event())
                     continue
                 (arc, events) = slav.handle_dormer_event(i)
-            prioque.put_all(events)
+            for ev in events:
+                if isinstance(ev, _EdgeEvent) and ev.distance < i.distance + 0.001 and \
+                        any(v.on_ridge and v.next_event() == ev for v in (ev.vertex_a, ev.vertex_b)):
+                    topEventList.insert(0, ev)
+                else:
+                    prioque.put(ev)
 
             if arc is not None:
                 if isinstance(arc, list):
-- 
2.43.0


From 8f737d34c22f5795790c706f29baeb533ca8ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 26/29] fix: only merge nodes of the skeleton that are
 connected

Nodes near to each other but connected by way of a node outside of the
cluster made a loop of two arcs between the same nodes.
---
 bpypolyskel/bpypolyskel.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 6996444..d6af141 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -646,6 +646,18 @@ def findClusters(skeleton, candidates, contourVertices, edgeContours, thresh):
             # use Manhattan distance
             if abs(ref.source.x-arc.source.x) + abs(ref.source.y-arc.source.y) < thresh:
                 cluster.append(c)
+        # only merge nodes that are connected by arcs in the cluster (or coincide),
+        # else the arcs to nodes between them would become loops
+        connected, pending = [c0], [c0]
+        while pending:
+            this = skeleton[pending.pop()]
+            for c in cluster:
+                arc = skeleton[c]
+                if c not in connected and (arc.source in this.sinks or this.source in arc.sinks or \
+                        abs(this.source.x-arc.source.x) + abs(this.source.y-arc.source.y) < 0.001):
+                    connected.append(c)
+                    pending.append(c)
+        cluster = [c for c in cluster if c in connected]
         for c in cluster:
             if c in candidates:
                 candidates.remove(c)
-- 
2.43.0


From 588c7b38843d14793cade27ee6e51951e865e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 27/29] fix: take the new event of an outdated one in its turn

It may be earlier than the remaining events of nearly the same distance.
---
 bpypolyskel/bpypolyskel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index d6af141..345051a 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -954,6 +954,9 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
                     for v in (i.vertex_a, i.vertex_b):
                         if v.is_valid and v.prev.is_valid and v.next.is_valid:
                             prioque.put(v.next_event())
+                    # it may be earlier than the other events of nearly the same distance
+                    prioque.put_all(topEventList)
+                    topEventList.clear()
                     continue
                 (arc, events) = slav.handle_edge_event(i)
             elif isinstance(i, _SplitEvent):
-- 
2.43.0


From b931c0e2e96edf58beae0118ce6594196bbaa273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 28/29] fix: leave the loop over outdated pairs when a spike is
 removed

---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 345051a..ba59249 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -601,6 +601,8 @@ def removeGhosts(skeleton):
                                     arc.sinks.remove(nearSink)
                                     sinksAltered = True
                                     break
+                            if sinksAltered:
+                                break   # the remaining pairs are outdated
 
 def detectApses(outerContour):
     import re
-- 
2.43.0


From 10611891795f7719698e6389d60c441980e7c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 29/29] fix: don't move nodes across other arcs when a cluster
 is merged

---
 bpypolyskel/bpypolyskel.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index ba59249..03ddac6 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -762,6 +762,12 @@ def mergeCluster(skeleton, cluster):
         del skeleton[i]
     skeleton.append(newnode)
 
+def nrOfCrossings(skeleton, nodes):
+    # number of crossings of the arcs that start or end at one of the nodes with other arcs
+    arcs = [(arc.source,sink) for arc in skeleton for sink in arc.sinks]
+    return sum( intersect(*a,*b) for a in arcs if a[0] in nodes or a[1] in nodes \
+               for b in arcs if b[0] not in a and b[1] not in a )
+
 def mergeNodeClusters(skeleton,edgeContours):
     # first merge all nodes that have exactly the same source
     sources = {}
@@ -784,19 +790,34 @@ def mergeNodeClusters(skeleton,edgeContours):
 
     # Merge all clusters that have small distances due to floating-point inaccuracies
     smallThresh = 0.1
+    unmergeable = []
     hadCluster = True
     while hadCluster:
         hadCluster = False
         # find clusters within short range and short height difference
         candidates = [c for c in range(len(skeleton))]
         clusters = findClusters(skeleton,candidates,contourVertices,edgeContours,smallThresh) 
+        # don't try those again, that can't be merged
+        clusters = [clstr for clstr in clusters if [tuple(skeleton[c].source) for c in clstr] not in unmergeable]
         # check if there are cluster candidates
         if not clusters:
             break
         hadCluster = True
         # use largest cluster
         cluster = max(clusters, key = lambda clstr: len(clstr))
-        mergeCluster(skeleton, cluster)
+        merged = [Subtree(arc.source, arc.height, arc.sinks.copy()) for arc in skeleton]
+        mergeCluster(merged, cluster)
+        # don't merge a cluster, when its nodes would be moved across other arcs of the skeleton
+        clusterSources = [skeleton[c].source for c in cluster]
+        if nrOfCrossings(merged, [merged[-1].source]) > nrOfCrossings(skeleton, clusterSources):
+            # merge at least nodes of it that coincide
+            clusters = findClusters(skeleton,cluster.copy(),contourVertices,edgeContours,0.001)
+            if clusters:
+                mergeCluster(skeleton, clusters[0])
+            else:
+                unmergeable.append([tuple(source) for source in clusterSources])
+        else:
+            skeleton = merged
 
     return skeleton
 
-- 
2.43.0

