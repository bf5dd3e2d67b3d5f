From 045caf57f986c950c38e10aa6092abb148f4453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 01/19] fix: refuse max_nb_connection of 256, which does not
 fit in the u8 it is reported and dumped as

---
 src/hnsw.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index d23eb58..a2a6e2b 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -778,8 +778,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let extend_candidates = false;
         let keep_pruned = false;
         //
-        if max_nb_connection > 256 {
-            println!("error max_nb_connection must be less equal than 256");
+        if max_nb_connection >= 256 {
+            println!("error max_nb_connection must be less than 256");
             std::process::exit(1);
         }
         //
-- 
2.43.0


From bd9d8deeefe8ca5e559337dec720aea5aa0a6600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 02/19] fix: iterating over the points of an empty index, or
 past the end, panicked

IterPoint::next also locked points_by_layer and the entry point again while
holding a read guard, which deadlocks when a writer waits in between.
---
 src/hnsw.rs | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index a2a6e2b..ca56719 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -624,7 +624,7 @@ impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
 /// The iteration begins at level 0 (most populated level) and goes upward in levels.
 /// The iterator takes a ReadGuard on the PointIndexation structure
 pub struct IterPoint<'a, 'b, T: Clone + Send + Sync + 'b> {
-    point_indexation: &'a PointIndexation<'b, T>,
+    _point_indexation: &'a PointIndexation<'b, T>,
     pi_guard: RwLockReadGuard<'a, Vec<Layer<'b, T>>>,
     layer: i64,
     slot_in_layer: i64,
@@ -634,7 +634,7 @@ impl<'a, 'b, T: Clone + Send + Sync> IterPoint<'a, 'b, T> {
     pub fn new(point_indexation: &'a PointIndexation<'b, T>) -> Self {
         let pi_guard: RwLockReadGuard<Vec<Layer<'b, T>>> = point_indexation.points_by_layer.read();
         IterPoint {
-            point_indexation,
+            _point_indexation: point_indexation,
             pi_guard,
             layer: -1,
             slot_in_layer: -1,
@@ -651,32 +651,19 @@ impl<'b, T: Clone + Send + Sync> Iterator for IterPoint<'_, 'b, T> {
             self.layer = 0;
             self.slot_in_layer = 0;
         }
-        if (self.slot_in_layer as usize) < self.pi_guard[self.layer as usize].len() {
+        // go to the next non empty layer if necessary. We use only the guard taken at construction:
+        // locking again here could deadlock with a waiting writer.
+        while (self.layer as usize) < self.pi_guard.len() {
+            let points = &self.pi_guard[self.layer as usize];
             let slot = self.slot_in_layer as usize;
-            self.slot_in_layer += 1;
-            Some(self.pi_guard[self.layer as usize][slot].clone())
-        } else {
-            self.slot_in_layer = 0;
-            self.layer += 1;
-            // must reach a non empty layer if possible
-            let entry_point_ref = self.point_indexation.entry_point.read();
-            let points_by_layer = self.point_indexation.points_by_layer.read();
-            let entry_point_level = entry_point_ref.as_ref().unwrap().p_id.0;
-            while (self.layer as u8) <= entry_point_level
-                && points_by_layer[self.layer as usize].is_empty()
-            {
-                self.layer += 1;
-            }
-            // now here either  (self.layer as u8) > self.point_indexation.max_level_observed
-            // or self.point_indexation.points_by_layer[self.layer as usize ].len() > 0
-            if (self.layer as u8) <= entry_point_level {
-                let slot = self.slot_in_layer as usize;
+            if slot < points.len() {
                 self.slot_in_layer += 1;
-                Some(points_by_layer[self.layer as usize][slot].clone())
-            } else {
-                None
+                return Some(points[slot].clone());
             }
+            self.slot_in_layer = 0;
+            self.layer += 1;
         }
+        None
     } // end of next
 } // end of impl Iterator
 
-- 
2.43.0


From 94aaa0c4b1b26ce85c533a08b0c63acbcea19e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 03/19] fix: filtered search returned the entry point of the
 layer even if the filter rejects it

---
 src/hnsw.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index ca56719..db0fdb4 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1503,7 +1503,11 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         // now search with asked ef in lower layer
         let neighbours_heap = self.search_layer(data, pivot, ef, layer_to_search, filter);
         // go from heap of points with negative dist to a sorted vec of increasing points with > 0 distances.
-        let neighbours = neighbours_heap.into_sorted_vec();
+        let mut neighbours = neighbours_heap.into_sorted_vec();
+        // the entry point is in the heap even if the filter rejects it
+        if let Some(filter) = filter {
+            neighbours.retain(|p| filter.hnsw_filter(&p.point_ref.origin_id));
+        }
         // get the min of K and ef points into a vector.
         //
         let last = knbn.min(ef).min(neighbours.len());
-- 
2.43.0


From 3ff3406f7d0e3c4f5a5664babfb580e7bf3518e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 04/19] fix: the level scale read from a dump was multiplied by
 the default scale at reload

---
 src/hnsw.rs   | 11 +++--------
 src/hnswio.rs | 12 +++++++-----
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index db0fdb4..2b2f406 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -333,17 +333,12 @@ impl LayerGenerator {
         }
     }
 
-    // new when we know scale used. Should replace the one without scale
-    pub(crate) fn new_with_scale(
-        max_nb_connection: usize,
-        scale_factor: f64,
-        maxlevel: usize,
-    ) -> Self {
-        let scale_default = 1. / (max_nb_connection as f64).ln();
+    // new when we know scale used (as returned by get_level_scale). Should replace the one without scale
+    pub(crate) fn new_with_scale(scale: f64, maxlevel: usize) -> Self {
         LayerGenerator {
             rng: Arc::new(Mutex::new(StdRng::from_entropy())),
             unif: Uniform::<f64>::new(0., 1.),
-            scale: scale_default * scale_factor,
+            scale,
             maxlevel,
         }
     }
diff --git a/src/hnswio.rs b/src/hnswio.rs
index ea845f5..0abc7ed 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -770,11 +770,13 @@ impl HnswIo {
             max_nb_connection: descr.max_nb_connection as usize,
             max_layer: NB_LAYER_MAX as usize,
             points_by_layer: Arc::new(RwLock::new(points_by_layer)),
-            layer_g: LayerGenerator::new_with_scale(
-                descr.max_nb_connection as usize,
-                descr.level_scale,
-                NB_LAYER_MAX as usize,
-            ),
+            // the scale itself is dumped from format version 4 on, previous versions used the default scale
+            layer_g: match descr.format_version {
+                2 | 3 => {
+                    LayerGenerator::new(descr.max_nb_connection as usize, NB_LAYER_MAX as usize)
+                }
+                _ => LayerGenerator::new_with_scale(descr.level_scale, NB_LAYER_MAX as usize),
+            },
             nb_point: Arc::new(RwLock::new(nb_points_loaded)), // CAVEAT , we should increase , the whole thing is to be able to increment graph ?
             entry_point: Arc::new(RwLock::new(Some(entry_point))),
         };
-- 
2.43.0


From dc7e70d0d41c0a39ad27ff3e69268350b3268bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 05/19] fix: reload took the length of every vector from the
 description, and panicked or exited on a bad data file

---
 src/hnswio.rs | 112 ++++++++++++++++++++++++++------------------------
 1 file changed, 59 insertions(+), 53 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 0abc7ed..6e740eb 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -818,9 +818,8 @@ impl HnswIo {
                 let v = load_point_data::<T>(origin_id, data_in, descr);
                 if v.is_err() {
                     error!("loading point {:?}", origin_id);
-                    std::process::exit(1);
                 }
-                Point::<T>::new(v.unwrap(), origin_id, p_id)
+                Point::<T>::new(v?, origin_id, p_id)
             }
             true => {
                 skip_point_data(origin_id, data_in, descr)?; // keep cohrence between data file and graph file!
@@ -1116,6 +1115,31 @@ fn dump_point<T: Serialize + Clone + Sized + Send + Sync, W: Write>(
     Ok(1)
 } // end of dump for Point<T>
 
+// reads the header of the record of a point in data file : magic, origin_id.
+// Returns the length in bytes of the vector coming next.
+fn load_point_data_header(origin_id: usize, data_in: &mut dyn Read) -> Result<u64> {
+    let mut it_slice = [0u8; std::mem::size_of::<u32>()];
+    data_in.read_exact(&mut it_slice)?;
+    let magic = u32::from_ne_bytes(it_slice);
+    if magic != MAGICDATAP {
+        return Err(anyhow!(
+            "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
+            origin_id
+        ));
+    }
+    // read origin id
+    let mut it_slice = [0u8; std::mem::size_of::<u64>()];
+    data_in.read_exact(&mut it_slice)?;
+    let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
+    if origin_id != origin_id_data {
+        return Err(anyhow!("origin_id incoherent between graph and data"));
+    }
+    //
+    let mut it_slice = [0u8; std::mem::size_of::<u64>()];
+    data_in.read_exact(&mut it_slice)?;
+    Ok(u64::from_ne_bytes(it_slice))
+} // end of load_point_data_header
+
 // just reload data vector for point from file where data were dumped
 // used when we do not used memory map in reload
 fn load_point_data<T>(
@@ -1131,45 +1155,45 @@ where
     //
     // construct a point from data_in
     //
-    let mut it_slice = [0u8; std::mem::size_of::<u32>()];
-    data_in.read_exact(&mut it_slice)?;
-    let magic = u32::from_ne_bytes(it_slice);
-    assert_eq!(
-        magic, MAGICDATAP,
-        "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
-        origin_id
-    );
-    // read origin id
-    let mut it_slice = [0u8; std::mem::size_of::<u64>()];
-    data_in.read_exact(&mut it_slice)?;
-    let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
-    assert_eq!(
-        origin_id, origin_id_data,
-        "origin_id incoherent between graph and data"
-    );
-    // now read data. we use size_t that is in description, to take care of the casewhere we reload
-    let mut it_slice = [0u8; std::mem::size_of::<u64>()];
-    data_in.read_exact(&mut it_slice)?;
-    let serialized_len = u64::from_ne_bytes(it_slice);
+    let serialized_len = load_point_data_header(origin_id, data_in)?;
     trace!("serialized len to reload {:?}", serialized_len);
-    let mut v_serialized = vec![0; serialized_len as usize];
-    data_in.read_exact(&mut v_serialized)?;
+    // the length comes from the file, so we do not allocate before having read the bytes
+    let mut v_serialized = Vec::<u8>::new();
+    data_in
+        .take(serialized_len)
+        .read_to_end(&mut v_serialized)?;
+    if v_serialized.len() as u64 != serialized_len {
+        return Err(anyhow!("truncated data for point {:?}", origin_id));
+    }
 
     let v: Vec<T> = if std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>() {
         match descr.format_version {
-            2 => bincode::deserialize(&v_serialized).unwrap(),
+            2 => bincode::deserialize(&v_serialized)?,
             3 | 4 => {
-                let slice_t = unsafe {
-                    std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, descr.dimension)
-                };
-                slice_t.to_vec()
+                // points can have different lengths, so the length is the one of the record.
+                let t_size = std::mem::size_of::<T>();
+                if t_size == 0 || v_serialized.len() % t_size != 0 {
+                    return Err(anyhow!("bad data length for point {:?}", origin_id));
+                }
+                let nb = v_serialized.len() / t_size;
+                let mut v = Vec::<T>::with_capacity(nb);
+                // v_serialized has no reason to be aligned for T, so we copy bytes in a Vec<T>
+                unsafe {
+                    std::ptr::copy_nonoverlapping(
+                        v_serialized.as_ptr(),
+                        v.as_mut_ptr() as *mut u8,
+                        v_serialized.len(),
+                    );
+                    v.set_len(nb);
+                }
+                v
             }
             _ => {
                 error!(
                     "error in load_point, unknow format_version : {:?}",
                     descr.format_version
                 );
-                std::process::exit(1);
+                return Err(anyhow!("unknown format version"));
             }
         }
     } else {
@@ -1182,33 +1206,15 @@ where
 // We need to maintain coherence in data and graph stream, so we read to keep in phase
 fn skip_point_data(origin_id: usize, data_in: &mut dyn Read, _descr: &Description) -> Result<()> {
     //
-    let mut it_slice = [0u8; std::mem::size_of::<u32>()];
-    data_in.read_exact(&mut it_slice)?;
-    let magic = u32::from_ne_bytes(it_slice);
-    assert_eq!(
-        magic, MAGICDATAP,
-        "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
-        origin_id
-    );
-    // read origin id
-    let mut it_slice = [0u8; std::mem::size_of::<u64>()];
-    data_in.read_exact(&mut it_slice)?;
-    let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
-    assert_eq!(
-        origin_id, origin_id_data,
-        "origin_id incoherent between graph and data"
-    );
-    //
-    // now read data. we use size_t that is in description, to take care of the casewhere we reload
-    let mut it_slice = [0u8; std::mem::size_of::<u64>()];
-    data_in.read_exact(&mut it_slice)?;
-    let serialized_len = u64::from_ne_bytes(it_slice);
+    let serialized_len = load_point_data_header(origin_id, data_in)?;
     trace!(
         "skip_point_data : serialized len to reload {:?}",
         serialized_len
     );
-    let mut v_serialized = vec![0; serialized_len as usize];
-    data_in.read_exact(&mut v_serialized)?;
+    let nb_skipped = std::io::copy(&mut data_in.take(serialized_len), &mut std::io::sink())?;
+    if nb_skipped != serialized_len {
+        return Err(anyhow!("truncated data for point {:?}", origin_id));
+    }
     //
     Ok(())
 } // end of skip_point_data
-- 
2.43.0


From 670b933476527a2ff4c94613d6340f8ad39c2717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 06/19] fix: reload panicked on a truncated or corrupted graph
 file, or a mismatched data type, instead of returning an error

---
 src/hnswio.rs | 104 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 64 insertions(+), 40 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 6e740eb..253299c 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -413,7 +413,7 @@ impl HnswIo {
         let mut graph_in = BufReader::new(graphfile);
         let data_in = BufReader::new(datafile);
         // we need to call load_description first to get distance name
-        let hnsw_description = load_description(&mut graph_in).unwrap();
+        let hnsw_description = load_description(&mut graph_in)?;
         //
         Ok(LoadInit {
             descr: hnsw_description,
@@ -451,19 +451,20 @@ impl HnswIo {
         let mut it_slice = [0u8; std::mem::size_of::<u32>()];
         data_in.read_exact(&mut it_slice)?;
         let magic = u32::from_ne_bytes(it_slice);
-        assert_eq!(
-            magic, MAGICDATAP,
-            "magic not equal to MAGICDATAP in load_point"
-        );
+        if magic != MAGICDATAP {
+            return Err(anyhow!("magic not equal to MAGICDATAP in data file"));
+        }
         //
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         data_in.read_exact(&mut it_slice)?;
         let dimension = usize::from_ne_bytes(it_slice);
-        assert_eq!(
-            dimension, description.dimension,
-            "data dimension incoherent {:?} {:?} ",
-            dimension, description.dimension
-        );
+        if dimension != description.dimension {
+            return Err(anyhow!(
+                "data dimension incoherent {:?} {:?} ",
+                dimension,
+                description.dimension
+            ));
+        }
         //
         let _mode = description.dumpmode;
         let distname = description.distname.clone();
@@ -477,7 +478,7 @@ impl HnswIo {
         }
         let distname_split: Vec<&str> = distname.rsplit_terminator("::").collect();
         if (std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>())
-            && (d_type_name_split[0] != distname_split[0])
+            && (d_type_name_split.first() != distname_split.first())
         {
             // for all types except NoData , distance asked in reload declaration and distance in dump must be equal!
             let mut errmsg = String::from("error in distances : dumped distance is : ");
@@ -550,19 +551,20 @@ impl HnswIo {
         let mut it_slice = [0u8; std::mem::size_of::<u32>()];
         data_in.read_exact(&mut it_slice)?;
         let magic = u32::from_ne_bytes(it_slice);
-        assert_eq!(
-            magic, MAGICDATAP,
-            "magic not equal to MAGICDATAP in load_point"
-        );
+        if magic != MAGICDATAP {
+            return Err(anyhow!("magic not equal to MAGICDATAP in data file"));
+        }
         //
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         data_in.read_exact(&mut it_slice)?;
         let dimension = usize::from_ne_bytes(it_slice);
-        assert_eq!(
-            dimension, description.dimension,
-            "data dimension incoherent {:?} {:?} ",
-            dimension, description.dimension
-        );
+        if dimension != description.dimension {
+            return Err(anyhow!(
+                "data dimension incoherent {:?} {:?} ",
+                dimension,
+                description.dimension
+            ));
+        }
         //
         let _mode = description.dumpmode;
         let distname = description.distname.clone();
@@ -634,7 +636,7 @@ impl HnswIo {
                 descr.t_name,
                 std::any::type_name::<T>()
             );
-            panic!("incohrent size of T in description");
+            return Err(anyhow!("incohrent size of T in description"));
         }
         //
         let mut points_by_layer: Vec<Vec<Arc<Point<T>>>> =
@@ -666,7 +668,8 @@ impl HnswIo {
             graph_in.read_exact(&mut it_slice)?;
             let nbpoints = usize::from_ne_bytes(it_slice);
             debug!(" layer {:?} , nb points {:?}", l, nbpoints);
-            let mut vlayer: Vec<Arc<Point<T>>> = Vec::with_capacity(nbpoints);
+            // nbpoints comes from the file, we do not allocate before having read
+            let mut vlayer: Vec<Arc<Point<T>>> = Vec::new();
             // load graph and data part of point. Points are dumped in the same order.
             for r in 0..nbpoints {
                 // do we use mmap? for this point. We must load into memory up to threshold points, and we also want the  most
@@ -700,18 +703,18 @@ impl HnswIo {
                 let point = load_point_res.0;
                 let p_id = point.get_point_id();
                 // some checks
-                assert_eq!(l, p_id.0 as usize);
-                if r != p_id.1 as usize {
-                    debug!("Origin= {:?},  p_id = {:?}", point.get_origin_id(), p_id);
-                    debug!("Storing at l {:?}, r {:?}", l, r);
+                if l != p_id.0 as usize || i32::try_from(r).ok() != Some(p_id.1) {
+                    error!("Origin= {:?},  p_id = {:?}", point.get_origin_id(), p_id);
+                    return Err(anyhow!("point at layer {} and rank {} has id {:?}", l, r, p_id));
                 }
-                assert_eq!(r, p_id.1 as usize);
                 // store neoghbour info of this point
                 neighbourhood_map.insert(p_id, load_point_res.1);
                 vlayer.push(point);
                 nb_points_loaded += 1;
                 nb_still_to_load -= 1;
-                assert!(nb_still_to_load >= 0);
+                if nb_still_to_load < 0 {
+                    return Err(anyhow!("more points in graph than in description"));
+                }
             }
             points_by_layer.push(vlayer);
         }
@@ -721,7 +724,7 @@ impl HnswIo {
             let point = &points_by_layer[p_id.0 as usize][p_id.1 as usize];
             for (l, neighbours) in neighbours.iter().enumerate() {
                 for n in neighbours {
-                    let n_point = &points_by_layer[n.p_id.0 as usize][n.p_id.1 as usize];
+                    let n_point = get_loaded_point(&points_by_layer, n.p_id)?;
                     // now n_point is the Arc<Point> corresponding to neighbour n of point,
                     // construct a corresponding PointWithOrder
                     let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
@@ -759,7 +762,10 @@ impl HnswIo {
             "found entry point, origin_id {:?} , layer {:?}, rank in layer {:?} ",
             origin_id, layer, rank_in_l
         );
-        let entry_point = Arc::clone(&points_by_layer[layer as usize][rank_in_l as usize]);
+        let entry_point = Arc::clone(get_loaded_point(
+            &points_by_layer,
+            PointId(layer, rank_in_l),
+        )?);
         info!(
             " loaded entry point, origin_id {:} p_id {:?}",
             entry_point.get_origin_id(),
@@ -840,6 +846,17 @@ impl HnswIo {
     } // end of load_point
 } // end of Hnswio
 
+// get a point already loaded, p_id comes from a file and can be anything.
+fn get_loaded_point<'a, 'b, T: Clone + Send + Sync>(
+    points_by_layer: &'a [Vec<Arc<Point<'b, T>>>],
+    p_id: PointId,
+) -> Result<&'a Arc<Point<'b, T>>> {
+    usize::try_from(p_id.1)
+        .ok()
+        .and_then(|rank| points_by_layer.get(p_id.0 as usize)?.get(rank))
+        .ok_or_else(|| anyhow!("no point of id {:?} in dump", p_id))
+}
+
 /// structure describing main parameters for hnsnw data and written at the beginning of a dump file.
 ///
 /// Name of distance and type of data must be encoded in the dump file for a coherent reload.
@@ -1231,23 +1248,23 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
     trace!("in load_point_graph");
     // read and check magic
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
     if magic != MAGICPOINT {
         error!("got instead of MAGICPOINT {:x}", magic);
         return Err(anyhow!("bad magic at point beginning"));
     }
     let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let origin_id = DataId::from_ne_bytes(it_slice);
     //
     // read point_id
     let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let layer = u8::from_ne_bytes(it_slice);
     //
     let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let rank_in_l = i32::from_ne_bytes(it_slice);
     let p_id = PointId(layer, rank_in_l);
     debug!(
@@ -1257,30 +1274,37 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
     //
     // Now  for each layer , read neighbours
     let nb_layer = descr.nb_layer;
+    if nb_layer > NB_LAYER_MAX {
+        return Err(anyhow!("inconsistent number of layers in description"));
+    }
     let mut neighborhood = Vec::<Vec<Neighbour>>::with_capacity(NB_LAYER_MAX as usize);
     for _l in 0..nb_layer {
         let mut neighbour: Neighbour = Default::default();
         // read nb_neighbour as usize!!! CAUTION, then nb_neighbours times identity(depends on Full or Light) distance : f32
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
-        graph_in.read_exact(&mut it_slice).unwrap();
+        graph_in.read_exact(&mut it_slice)?;
         let nb_neighbours = usize::from_ne_bytes(it_slice);
-        let mut neighborhood_l: Vec<Neighbour> = Vec::with_capacity(nb_neighbours);
+        // nb_neighbours comes from the file, we do not allocate before having read
+        let mut neighborhood_l: Vec<Neighbour> = Vec::new();
         for _j in 0..nb_neighbours {
             let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.d_id = DataId::from_ne_bytes(it_slice);
             if descr.dumpmode == 1 {
                 let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.0 = u8::from_ne_bytes(it_slice);
                 //
                 let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.1 = i32::from_ne_bytes(it_slice);
             }
             let mut it_slice = [0u8; std::mem::size_of::<f32>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.distance = f32::from_ne_bytes(it_slice);
+            if neighbour.distance.is_nan() {
+                return Err(anyhow!("got a NaN distance in neighbourhood"));
+            }
             //  debug!("        voisins  load {:?} {:?} {:?} ", neighbour.p_id, neighbour.d_id , neighbour.distance);
             // now we have a new neighbour, we must really fill neighbourhood info, so it means going from Neighbour to PointWithOrder
             neighborhood_l.push(neighbour);
-- 
2.43.0


From b10ea628209f428e9f10bc1a01fd2df7c6a26541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 07/19] fix: load_description panicked on names which are not
 utf8

---
 src/hnswio.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 253299c..9563fea 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1037,7 +1037,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     }
     let mut distv = vec![0; len];
     io_in.read_exact(distv.as_mut_slice())?;
-    let distname = String::from_utf8(distv).unwrap();
+    let distname = String::from_utf8(distv)?;
     debug!("distance name {:?} ", distname);
     descr.distname = distname;
     // reload of type name
@@ -1051,7 +1051,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     }
     let mut tnamev = vec![0; len];
     io_in.read_exact(tnamev.as_mut_slice())?;
-    let t_name = String::from_utf8(tnamev).unwrap();
+    let t_name = String::from_utf8(tnamev)?;
     debug!("T type name {:?} ", t_name);
     descr.t_name = t_name;
     debug!(" end of description load \n");
-- 
2.43.0


From 96d186c47650e6b7e4bc2d75f4b9092e21a4031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 08/19] fix: load_hnsw_description of the C interface left the
 number of points at 0

---
 src/libext.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libext.rs b/src/libext.rs
index 76bfd62..3f7176a 100644
--- a/src/libext.rs
+++ b/src/libext.rs
@@ -1191,10 +1191,11 @@ pub unsafe extern "C" fn load_hnsw_description(
                 let t_name_len = t_name.len();
                 std::mem::forget(t_name);
 
-                ffi_description.dumpmode = 1; // CAVEAT
+                ffi_description.dumpmode = description.dumpmode;
                 ffi_description.max_nb_connection = description.max_nb_connection;
                 ffi_description.nb_layer = description.nb_layer;
                 ffi_description.ef = description.ef;
+                ffi_description.nb_point = description.nb_point;
                 ffi_description.data_dimension = description.dimension;
                 ffi_description.distname_len = distname_len;
                 ffi_description.distname = distname_ptr;
-- 
2.43.0


From 5224e1e698f7329d09012585b159c00b16a7a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 09/19] fix: DataMap exited the process or panicked on a
 missing or corrupted dump, and took the length of every vector from the
 description

---
 src/datamap.rs | 177 ++++++++++++++++++++-----------------------------
 1 file changed, 71 insertions(+), 106 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 3bce7c3..db8f2b3 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -30,12 +30,25 @@ pub struct DataMap {
     hmap: IndexMap<DataId, usize>,
     /// type name of Data
     t_name: String,
-    /// dimension of data vector
-    dimension: usize,
-    //
     distname: String,
 } // end of DataMap
 
+// decodes a u32 at address addr of slice and goes to next address
+fn get_u32(slice: &[u8], addr: &mut usize) -> Result<u32, String> {
+    let end = *addr + std::mem::size_of::<u32>();
+    let bytes = slice.get(*addr..end).ok_or("truncated data file")?;
+    *addr = end;
+    Ok(u32::from_ne_bytes(bytes.try_into().unwrap()))
+}
+
+// decodes a u64 at address addr of slice and goes to next address
+fn get_u64(slice: &[u8], addr: &mut usize) -> Result<u64, String> {
+    let end = *addr + std::mem::size_of::<u64>();
+    let bytes = slice.get(*addr..end).ok_or("truncated data file")?;
+    *addr = end;
+    Ok(u64::from_ne_bytes(bytes.try_into().unwrap()))
+}
+
 impl DataMap {
     // TODO: specifiy mmap option
     /// The fname argument corresponds to the basename of the dump.  
@@ -54,12 +67,13 @@ impl DataMap {
         let graphfileres = OpenOptions::new().read(true).open(&graphpath);
         if graphfileres.is_err() {
             println!("DataMap: could not open file {:?}", graphpath.as_os_str());
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", graphpath));
         }
         let graphfile = graphfileres.unwrap();
         let mut graph_in = BufReader::new(graphfile);
         // we need to call load_description first to get distance name
-        let hnsw_description = hnswio::load_description(&mut graph_in).unwrap();
+        let hnsw_description = hnswio::load_description(&mut graph_in)
+            .map_err(|e| format!("could not read description in {:?} : {}", graphpath, e))?;
         if hnsw_description.format_version <= 2 {
             let msg = String::from("from_hnsw::from_hnsw : data mapping is only possible for dumps with the version > 0.1.19 of this crate");
             error!(
@@ -91,53 +105,38 @@ impl DataMap {
         filename.push_str(".hnsw.data");
         datapath.push(filename);
         //
-        let meta = std::fs::metadata(&datapath);
-        if meta.is_err() {
-            error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
-        }
-        let fsize = meta.unwrap().len().try_into().unwrap();
-        //
-        let file_res = File::open(&datapath);
-        if file_res.is_err() {
+        let file = File::open(&datapath).map_err(|e| {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
-        }
-        let file = file_res.unwrap();
+            format!("could not open file {:?} : {}", datapath, e)
+        })?;
+        let fsize = file
+            .metadata()
+            .ok()
+            .and_then(|meta| usize::try_from(meta.len()).ok())
+            .ok_or_else(|| format!("could not get size of file {:?}", datapath))?;
         let offset = 0;
         //
-        let mmap_opt = MmapOptions::new(fsize).unwrap();
-        let mmap_opt = unsafe { mmap_opt.with_file(&file, offset) };
-        let mapping_res = mmap_opt.map();
-        if mapping_res.is_err() {
-            error!("Could not memory map : {:?}", &datapath);
-            std::process::exit(1);
-        }
-        let mmap = mapping_res.unwrap();
+        let mmap = MmapOptions::new(fsize)
+            .and_then(|mmap_opt| unsafe { mmap_opt.with_file(&file, offset) }.map())
+            .map_err(|e| {
+                error!("Could not memory map : {:?}", &datapath);
+                format!("could not memory map {:?} : {}", datapath, e)
+            })?;
         //
         info!("Mmap done on file : {:?}", &datapath);
+        // the mapping can be larger than the file (whole pages), what comes after the file is not data.
+        let mapped_slice = mmap.as_slice();
+        let mapped_slice = &mapped_slice[..fsize.min(mapped_slice.len())];
         //
         // where are we in decoding mmap slice? at beginning
         //
-        let mapped_slice = mmap.as_slice();
-        //
-        // where are we in decoding mmap slice?
         let mut current_mmap_addr = 0usize;
-        let mut usize_slice = [0u8; std::mem::size_of::<usize>()];
         // check magic
-        let mut u32_slice = [0u8; std::mem::size_of::<u32>()];
-        u32_slice.copy_from_slice(
-            &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u32>()],
-        );
-        current_mmap_addr += std::mem::size_of::<u32>();
-        let magic = u32::from_ne_bytes(u32_slice);
-        assert_eq!(magic, MAGICDATAP, "magic not equal to MAGICDATAP in mmap");
+        if get_u32(mapped_slice, &mut current_mmap_addr)? != MAGICDATAP {
+            return Err(String::from("magic not equal to MAGICDATAP in mmap"));
+        }
         // get dimension
-        usize_slice.copy_from_slice(
-            &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<usize>()],
-        );
-        current_mmap_addr += std::mem::size_of::<usize>();
-        let dimension = usize::from_ne_bytes(usize_slice);
+        let dimension = get_u64(mapped_slice, &mut current_mmap_addr)? as usize;
         if dimension != descr_dimension {
             error!("Description and data do not agree on dimension, data got : {:?}, description got : {:?}",dimension, descr_dimension);
             return Err(String::from(
@@ -148,71 +147,45 @@ impl DataMap {
         }
         //
         // now we know that each record consists in
-        //   - MAGICDATAP (u32), DataId  (u64), dimension (u64) and then  (length of type in bytes * dimension)
+        //   - MAGICDATAP (u32), DataId  (u64), length in bytes of vector (u64) and then the bytes of vector.
         //
-        let record_size = std::mem::size_of::<u32>()
-            + 2 * std::mem::size_of::<u64>()
-            + dimension * std::mem::size_of::<T>();
-        let residual = mmap.size() - current_mmap_addr;
-        info!(
-            "Mmap size {}, current_mmap_addr {}, residual : {}",
-            mmap.size(),
-            current_mmap_addr,
-            residual
-        );
-        let nb_record = residual / record_size;
-        debug!("Record size : {}, nb_record : {}", record_size, nb_record);
-        // allocate hmap with correct capacity
-        let mut hmap = IndexMap::<DataId, usize>::with_capacity(nb_record);
-        // fill hmap to have address of each data point in file
-        let mut u64_slice = [0u8; std::mem::size_of::<u64>()];
+        let mut hmap = IndexMap::<DataId, usize>::new();
+        let mut nb_record = 0usize;
         //
-        // now we loop on records
+        // now we loop on records, filling hmap to have address of each data point in file
         //
-        for i in 0..nb_record {
-            debug!("Record i : {}, addr : {}", i, current_mmap_addr);
+        while current_mmap_addr < mapped_slice.len() {
+            debug!("Record i : {}, addr : {}", nb_record, current_mmap_addr);
             // decode Magic
-            u32_slice.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u32>()],
-            );
-            current_mmap_addr += std::mem::size_of::<u32>();
-            let magic = u32::from_ne_bytes(u32_slice);
-            assert_eq!(magic, MAGICDATAP, "magic not equal to MAGICDATAP in mmap");
+            if get_u32(mapped_slice, &mut current_mmap_addr)? != MAGICDATAP {
+                return Err(String::from("magic not equal to MAGICDATAP in mmap"));
+            }
             // decode DataId
-            u64_slice.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u64>()],
-            );
-            current_mmap_addr += std::mem::size_of::<u64>();
-            let data_id = u64::from_ne_bytes(u64_slice) as usize;
+            let data_id = get_u64(mapped_slice, &mut current_mmap_addr)? as usize;
             debug!(
                 "Inserting in hmap : got dataid : {:?} current map address : {:?}",
                 data_id, current_mmap_addr
             );
-            // Note we store address where we have to decode dimension*size_of::<T>  and full bson encoded vector
+            // Note we store address where we have to decode length in bytes and full encoded vector
             hmap.insert(data_id, current_mmap_addr);
-            // now read serialized length
-            u64_slice.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u64>()],
-            );
-            current_mmap_addr += std::mem::size_of::<u64>();
-            let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
-            if i == 0 {
-                debug!("serialized bytes len to reload {:?}", serialized_len);
+            // now read serialized length, and skip data
+            let serialized_len = get_u64(mapped_slice, &mut current_mmap_addr)? as usize;
+            if serialized_len > mapped_slice.len() - current_mmap_addr {
+                return Err(String::from("truncated data file"));
             }
-            let mut v_serialized = vec![0; serialized_len];
-            v_serialized.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + serialized_len],
-            );
             current_mmap_addr += serialized_len;
-            let slice_t =
-                unsafe { std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, dimension) };
-            trace!(
-                "Deserialized v : {:?} address : {:?} ",
-                slice_t,
-                v_serialized.as_ptr() as *const T
+            nb_record += 1;
+        } // end of loop on record
+        if nb_record != hnsw_description.nb_point {
+            error!(
+                "Description and data do not agree on number of points, data got : {:?}, description got : {:?}",
+                nb_record, hnsw_description.nb_point
             );
-        } // end of for on record
-          //
+            return Err(String::from(
+                "description and data do not agree on number of points",
+            ));
+        }
+        //
         debug!("End of DataMap::from_hnsw.");
         //
         let datamap = DataMap {
@@ -220,7 +193,6 @@ impl DataMap {
             mmap,
             hmap,
             t_name,
-            dimension: descr_dimension,
             distname,
         };
         //
@@ -276,19 +248,12 @@ impl DataMap {
         debug!("Address for id : {}, address : {:?}", dataid, address);
         let mut current_mmap_addr = *address;
         let mapped_slice = self.mmap.as_slice();
-        let mut u64_slice = [0u8; std::mem::size_of::<u64>()];
-        u64_slice.copy_from_slice(
-            &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u64>()],
-        );
-        let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
-        current_mmap_addr += std::mem::size_of::<u64>();
+        let serialized_len = get_u64(mapped_slice, &mut current_mmap_addr).ok()? as usize;
         trace!("Serialized bytes len to reload {:?}", serialized_len);
-        let slice_t = unsafe {
-            std::slice::from_raw_parts(
-                mapped_slice[current_mmap_addr..].as_ptr() as *const T,
-                self.dimension,
-            )
-        };
+        let data = mapped_slice[current_mmap_addr..].get(..serialized_len)?;
+        // vectors can have different lengths
+        let nb = serialized_len.checked_div(std::mem::size_of::<T>())?;
+        let slice_t = unsafe { std::slice::from_raw_parts(data.as_ptr() as *const T, nb) };
         Some(slice_t)
     }
 
-- 
2.43.0


From 65dd3c2b527a19c2d6277d9c1f56e5552cde47fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 10/19] fix: reload with the mmap option panicked with
 load_hnsw_with_dist and with NoData

---
 src/datamap.rs | 27 +++++++++++++++++++--------
 src/hnswio.rs  | 17 ++++++++++++-----
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index db8f2b3..97963ad 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -237,6 +237,23 @@ impl DataMap {
 
     //
 
+    // returns the bytes of the vector of dataid
+    fn get_bytes(&self, dataid: &DataId) -> Option<&[u8]> {
+        let address = self.hmap.get(dataid)?;
+        debug!("Address for id : {}, address : {:?}", dataid, address);
+        let mut current_mmap_addr = *address;
+        let mapped_slice = self.mmap.as_slice();
+        let serialized_len = get_u64(mapped_slice, &mut current_mmap_addr).ok()? as usize;
+        trace!("Serialized bytes len to reload {:?}", serialized_len);
+        mapped_slice[current_mmap_addr..].get(..serialized_len)
+    }
+
+    // returns true if the data corresponding to dataid can be seen as a slice of T
+    pub(crate) fn is_aligned<T>(&self, dataid: &DataId) -> bool {
+        self.get_bytes(dataid)
+            .is_some_and(|bytes| (bytes.as_ptr() as usize) % std::mem::align_of::<T>() == 0)
+    }
+
     /// return the data corresponding to dataid. Access is done using mmap.  
     /// Function returns None if address is invalid
     /// This function requires you know the type T.  
@@ -244,15 +261,9 @@ impl DataMap {
     pub fn get_data<'a, T: Clone + std::fmt::Debug>(&'a self, dataid: &DataId) -> Option<&'a [T]> {
         //
         trace!("In DataMap::get_data, dataid : {:?}", dataid);
-        let address = self.hmap.get(dataid)?;
-        debug!("Address for id : {}, address : {:?}", dataid, address);
-        let mut current_mmap_addr = *address;
-        let mapped_slice = self.mmap.as_slice();
-        let serialized_len = get_u64(mapped_slice, &mut current_mmap_addr).ok()? as usize;
-        trace!("Serialized bytes len to reload {:?}", serialized_len);
-        let data = mapped_slice[current_mmap_addr..].get(..serialized_len)?;
+        let data = self.get_bytes(dataid)?;
         // vectors can have different lengths
-        let nb = serialized_len.checked_div(std::mem::size_of::<T>())?;
+        let nb = data.len().checked_div(std::mem::size_of::<T>())?;
         let slice_t = unsafe { std::slice::from_raw_parts(data.as_ptr() as *const T, nb) };
         Some(slice_t)
     }
diff --git a/src/hnswio.rs b/src/hnswio.rs
index 9563fea..5ec512a 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -819,19 +819,26 @@ impl HnswIo {
         }
         let (origin_id, p_id, neighborhood) = load_res.unwrap();
         //
-        let point = match point_use_mmap {
-            false => {
+        // the point is loaded in memory if there is no datamap (as in load_hnsw_with_dist, or with NoData)
+        // or if data are not aligned for T in the mapping.
+        let mapped: Option<&'b [T]> = match (point_use_mmap, self.datamap.as_ref()) {
+            (true, Some(datamap)) if datamap.is_aligned::<T>(&origin_id) => {
+                datamap.get_data::<T>(&origin_id)
+            }
+            _ => None,
+        };
+        let point = match mapped {
+            None => {
                 let v = load_point_data::<T>(origin_id, data_in, descr);
                 if v.is_err() {
                     error!("loading point {:?}", origin_id);
                 }
                 Point::<T>::new(v?, origin_id, p_id)
             }
-            true => {
+            Some(s) => {
                 skip_point_data(origin_id, data_in, descr)?; // keep cohrence between data file and graph file!
                 debug!("constructing point from datamap, dataid : {:?}", origin_id);
-                let s: Option<&'b [T]> = self.datamap.as_ref().unwrap().get_data::<T>(&origin_id);
-                Point::<T>::new_from_mmap(s.unwrap(), origin_id, p_id)
+                Point::<T>::new_from_mmap(s, origin_id, p_id)
             }
         };
         self.nb_point_loaded.fetch_add(1, Ordering::Relaxed);
-- 
2.43.0


From 832396505094f23aa119bead750d7f0390cfb834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 11/19] fix: concurrent first insertions could leave a point
 without any link, or lower the entry point

---
 src/hnsw.rs | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 2b2f406..4d75d33 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -547,6 +547,21 @@ impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
         }
     } // end of check_entry_point
 
+    /// returns the entry point if there is one, otherwise new_point becomes the entry point and None is returned
+    fn get_entry_point_or_init(&self, new_point: &Arc<Point<'b, T>>) -> Option<Arc<Point<'b, T>>> {
+        if let Some(arc_point) = self.entry_point.read().as_ref() {
+            return Some(Arc::clone(arc_point));
+        }
+        // another thread can have set the entry point since the lock was released
+        let mut entry_point_ref = self.entry_point.write();
+        if entry_point_ref.is_none() {
+            trace!("initializing entry point");
+            *entry_point_ref = Some(Arc::clone(new_point));
+            return None;
+        }
+        entry_point_ref.clone()
+    } // end of get_entry_point_or_init
+
     /// returns the number of points in layered structure
     pub fn get_nb_point(&self) -> usize {
         *self.nb_point.read()
@@ -1039,34 +1054,25 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let (data, origin_id) = data_with_id;
         let keep_pruned = self.keep_pruned;
         // insert in indexation and get point_id adn generate a new entry_point if necessary
-        let (new_point, point_rank) = self
+        let (new_point, _) = self
             .layer_indexed_points
             .generate_new_point(data, origin_id);
         trace!("Hnsw insert generated new point {:?} ", new_point.p_id);
         // now real work begins
         // allocate a binary heap
         let level = new_point.p_id.0;
-        let mut enter_point_copy = None;
-        let mut max_level_observed = 0;
-        // entry point has been set in
-        {
-            // I open a read lock on an option
-            if let Some(arc_point) = self.layer_indexed_points.entry_point.read().as_ref() {
-                enter_point_copy = Some(Arc::clone(arc_point));
-                if point_rank == 1 {
-                    debug!(
-                        "Hnsw  stored first point , direct return  {:?} ",
-                        new_point.p_id
-                    );
-                    return;
-                }
-                max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
-            }
-        }
+        // the first point to be inserted becomes the entry point, others insertions (even concurrent ones) are done from an entry point.
+        let mut enter_point_copy = self
+            .layer_indexed_points
+            .get_entry_point_or_init(&new_point);
         if enter_point_copy.is_none() {
-            self.layer_indexed_points.check_entry_point(&new_point);
+            debug!(
+                "Hnsw  stored first point , direct return  {:?} ",
+                new_point.p_id
+            );
             return;
         }
+        let max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
         let mut dist_to_entry = self
             .dist_f
             .eval(data, enter_point_copy.as_ref().unwrap().data.get_v());
-- 
2.43.0


From a345e3509e0c3ba3ce1ee3c30ff19c0433b8fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 12/19] fix: two concurrent insertions could deadlock while
 linking their neighbours back

---
 src/hnsw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 4d75d33..c1f272e 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1209,7 +1209,10 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         );
         let level = new_point.p_id.0;
         for l in (0..level + 1).rev() {
-            for q in &new_point.neighbours.read()[l as usize] {
+            // the list is cloned, as keeping a lock on new_point while asking for a lock on its neighbours
+            // deadlocks with an insertion doing the same in the other direction.
+            let neighbours = new_point.neighbours.read()[l as usize].clone();
+            for q in &neighbours {
                 if new_point.p_id != q.point_ref.p_id {
                     // as new point is in global table, do not loop and deadlock!!
                     let q_point = &q.point_ref;
-- 
2.43.0


From cf43b5a81a2da5070ecf1c37197268bc7160de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 13/19] Give the ordering of points in heaps to verification
 harnesses (cfg verif)

---
 src/hnsw.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index c1f272e..9a6a8da 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1702,6 +1702,14 @@ where
     debug!("exiting check_equality");
 } // end of check_reload
 
+/// gives the ordering of points in heaps to verification harnesses
+#[cfg(verif)]
+#[doc(hidden)]
+pub fn verif_point_with_order(dist_to_ref: f32) -> impl Ord {
+    let point = Arc::new(Point::<u8>::new(vec![0u8], 0, PointId(0, 0)));
+    PointWithOrder::new(&point, dist_to_ref)
+}
+
 #[cfg(test)]
 
 mod tests {
-- 
2.43.0


From 63fd0672026374cf1ce4fc96153e05a8d3c4f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 14/19] fix: DataMap::check_data_type compares whole type
 names, not the names of their crates

---
 src/datamap.rs | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 97963ad..5fa295c 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -207,29 +207,14 @@ impl DataMap {
     where
         T: 'static + Sized,
     {
-        // we check last part of name of type
-        let tname_vec = self.t_name.rsplit_terminator("::").collect::<Vec<&str>>();
-
-        if tname_vec.last().is_none() {
-            let errmsg = "DataMap::check_data_type() cannot determine data type name ";
-            error!("DataMap::check_data_type() cannot determine data type name ");
-            std::panic!("DataMap::check_data_type(), {}", errmsg);
-        }
-        let tname_last = tname_vec.last().unwrap();
-        //
-        let datat_name_arg = std::any::type_name::<T>().to_string();
-        let datat_name_vec = datat_name_arg
-            .rsplit_terminator("::")
-            .collect::<Vec<&str>>();
-
-        let datat_name_arg_last = datat_name_vec.last().unwrap();
-        //
-        if datat_name_arg_last == tname_last {
+        // types of a same crate differ only by the end of their names, we must compare the whole name.
+        let t_name_arg = std::any::type_name::<T>();
+        if self.t_name == t_name_arg {
             true
         } else {
             info!(
                 "Data type in DataMap : {},  type arg = {}",
-                tname_last, datat_name_arg_last
+                self.t_name, t_name_arg
             );
             false
         }
-- 
2.43.0


From c68d41e84aebe0b925bcb72fd0ae1e53a56529cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 15/19] fix: load_hnsw compares whole short names of generic
 distances

---
 src/hnswio.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 5ec512a..044f9a8 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -472,13 +472,9 @@ impl HnswIo {
         // for that we check for short names equality stripping
         debug!("distance in description = {:?}", distname);
         let d_type_name = type_name::<D>().to_string();
-        let d_type_name_split: Vec<&str> = d_type_name.rsplit_terminator("::").collect();
-        for s in &d_type_name_split {
-            info!(" distname in generic type argument {:?}", s);
-        }
-        let distname_split: Vec<&str> = distname.rsplit_terminator("::").collect();
+        info!(" distname in generic type argument {:?}", d_type_name);
         if (std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>())
-            && (d_type_name_split.first() != distname_split.first())
+            && (short_type_name(&d_type_name) != short_type_name(&distname))
         {
             // for all types except NoData , distance asked in reload declaration and distance in dump must be equal!
             let mut errmsg = String::from("error in distances : dumped distance is : ");
@@ -853,6 +849,13 @@ impl HnswIo {
     } // end of load_point
 } // end of Hnswio
 
+// strips the path of a type name. The path ends before generic arguments, which can have a path of their own.
+fn short_type_name(name: &str) -> &str {
+    let end_path = name.find('<').unwrap_or(name.len());
+    let begin = name[..end_path].rfind("::").map_or(0, |pos| pos + 2);
+    &name[begin..]
+}
+
 // get a point already loaded, p_id comes from a file and can be anything.
 fn get_loaded_point<'a, 'b, T: Clone + Send + Sync>(
     points_by_layer: &'a [Vec<Arc<Point<'b, T>>>],
-- 
2.43.0


From 904414b4a86f765cd0593cca7a0a5a91bcd8d5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:33 +0000
Subject: [PATCH 16/19] fix: DataMap::from_hnswdump looked for the graph file
 in dir/dir when dir is a relative path

---
 src/datamap.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 5fa295c..d8fbfb5 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -60,7 +60,6 @@ impl DataMap {
     ) -> Result<DataMap, String> {
         // reload description to have data type, and check for dump version
         let mut graphpath = PathBuf::from(dir);
-        graphpath.push(dir);
         let mut filename = file_name.to_string();
         filename.push_str(".hnsw.graph");
         graphpath.push(filename);
-- 
2.43.0


From b454d365c70189efecf8db7b0c90df3356b0cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:57 +0000
Subject: [PATCH 17/19] fix: a dump made while another thread inserts counted
 other points than it wrote

---
 src/hnswio.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 044f9a8..f624ba1 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1343,10 +1343,22 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
 //
 impl<T: Serialize + DeserializeOwned + Clone + Send + Sync> HnswIoT for PointIndexation<'_, T> {
     fn dump(&self, mode: DumpMode, dumpinit: &mut DumpInit) -> Result<i32> {
+        let layers = self.points_by_layer.read();
+        self.dump_layers(&layers, mode, dumpinit)
+    } // end of dump for PointIndexation<T>
+} // end of impl HnswIO
+
+impl<'b, T: Serialize + DeserializeOwned + Clone + Send + Sync> PointIndexation<'b, T> {
+    // layers is what points_by_layer is locked for
+    fn dump_layers(
+        &self,
+        layers: &[Vec<Arc<Point<'b, T>>>],
+        mode: DumpMode,
+        dumpinit: &mut DumpInit,
+    ) -> Result<i32> {
         let graphout = &mut dumpinit.graph_out;
         let dataout = &mut dumpinit.data_out;
         // dump max_layer
-        let layers = self.points_by_layer.read();
         let nb_layer = layers.len() as u8;
         graphout.write_all(&nb_layer.to_ne_bytes())?;
         // dump layers from lower (most populatated to higher level)
@@ -1379,8 +1391,8 @@ impl<T: Serialize + DeserializeOwned + Clone + Send + Sync> HnswIoT for PointInd
         );
         //
         Ok(1)
-    } // end of dump for PointIndexation<T>
-} // end of impl HnswIO
+    } // end of dump_layers
+} // end of impl PointIndexation
 
 //
 // dump and load of Hnsw<T>
@@ -1407,6 +1419,8 @@ impl<
         };
         let datadim: usize = self.layer_indexed_points.get_data_dimension();
         let level_scale = self.layer_indexed_points.get_level_scale();
+        // another thread can be inserting, the points dumped must be those counted in description
+        let layers = self.layer_indexed_points.points_by_layer.read();
         let description = Description {
             format_version: 3,
             //  value is 1 for Full 0 for Light
@@ -1415,7 +1429,7 @@ impl<
             level_scale,
             nb_layer: self.get_max_level() as u8,
             ef: self.get_ef_construction(),
-            nb_point: self.get_nb_point(),
+            nb_point: layers.iter().map(|layer| layer.len()).sum(),
             dimension: datadim,
             distname: self.get_distance_name(),
             t_name: type_name::<T>().to_string(),
@@ -1426,7 +1440,8 @@ impl<
         dataout.write_all(&MAGICDATAP.to_ne_bytes())?;
         dataout.write_all(&datadim.to_ne_bytes())?;
         //
-        self.layer_indexed_points.dump(mode, dumpinit)?;
+        self.layer_indexed_points
+            .dump_layers(&layers, mode, dumpinit)?;
         Ok(1)
     }
 } // end impl block for Hnsw
-- 
2.43.0


From 06504564d817623e0c9e9b2826053cbc9ae39696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:57 +0000
Subject: [PATCH 18/19] fix: file_dump panicked if the files of the dump cannot
 be opened

---
 src/api.rs    |  2 +-
 src/hnswio.rs | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 5d75fbc..dacbe11 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -71,7 +71,7 @@ where
         //
         // do not overwrite if mmap is active
         let overwrite = !self.get_datamap_opt();
-        let mut dumpinit = DumpInit::new(path, file_basename, overwrite);
+        let mut dumpinit = DumpInit::try_new(path, file_basename, overwrite)?;
         let dumpname = dumpinit.get_basename().clone();
         //
         let res = self.dump(DumpMode::Full, &mut dumpinit);
diff --git a/src/hnswio.rs b/src/hnswio.rs
index f624ba1..914f536 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -150,7 +150,14 @@ pub struct DumpInit {
 
 impl DumpInit {
     // This structure will check existence of dumps of same name and generate a unique filename if necessary according to overwrite flag
+    // panics if the files cannot be opened, see try_new
     pub fn new(dir: &Path, basename_default: &str, overwrite: bool) -> Self {
+        Self::try_new(dir, basename_default, overwrite)
+            .unwrap_or_else(|e| std::panic::panic_any(e.to_string()))
+    }
+
+    /// same as [new](Self::new()) but returns an error if one of the files cannot be opened
+    pub fn try_new(dir: &Path, basename_default: &str, overwrite: bool) -> Result<Self> {
         // if we cannot overwrite data files (in case of mmap in particular)
         // we will ensure we have a unique basename
         let basename = match overwrite {
@@ -203,7 +210,7 @@ impl DumpInit {
                 "HnswIo::reload_hnsw : could not open file {:?}",
                 graphpath.as_os_str()
             );
-            std::panic::panic_any("HnswIo::init : could not open file".to_string());
+            return Err(anyhow!("HnswIo::init : could not open file"));
         }
         let graphfile = graphfileres.unwrap();
         //  same thing for data file
@@ -221,18 +228,18 @@ impl DumpInit {
                 "HnswIo::init : could not open file {:?}",
                 datapath.as_os_str()
             );
-            std::panic::panic_any("HnswIo::init : could not open file".to_string());
+            return Err(anyhow!("HnswIo::init : could not open file"));
         }
         let datafile = datafileres.unwrap();
         //
         let graph_out = BufWriter::new(graphfile);
         let data_out = BufWriter::new(datafile);
         //
-        DumpInit {
+        Ok(DumpInit {
             basename,
             data_out,
             graph_out,
-        }
+        })
     }
 
     /// returns the basename used for the dump. May be it has been made unique to void overwriting a previous or mmapped dump
-- 
2.43.0


From 0833b0b086bf83471f95595b8cedb6ada5e302b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:15 +0000
Subject: [PATCH 19/19] fix: a reload handle used again could take vectors from
 the mapping of an earlier reload

---
 src/hnswio.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 914f536..a7d88ae 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -494,7 +494,8 @@ impl HnswIo {
         }
         let t_type = description.t_name.clone();
         debug!("T type name in dump = {:?}", t_type);
-        // Do we use mmap at reload
+        // Do we use mmap at reload. The files can have changed since a previous reload, so we do not keep its datamap
+        self.datamap = None;
         if self.options.use_mmap().0 {
             let datamap_res = DataMap::from_hnswdump::<T>(self.dir.as_path(), &self.basename);
             if datamap_res.is_err() {
@@ -505,7 +506,9 @@ impl HnswIo {
             }
         }
         // reloader can use datamap
-        let layer_point_indexation = self.load_point_indexation(graph_in, &description, data_in)?;
+        let datamap = self.datamap.as_ref();
+        let layer_point_indexation =
+            self.load_point_indexation(graph_in, &description, data_in, datamap)?;
         let data_dim = layer_point_indexation.get_data_dimension();
         //
         let hnsw: Hnsw<T, D> = Hnsw {
@@ -595,7 +598,9 @@ impl HnswIo {
         info!("T type name in dump = {:?}", t_type);
         //
         //
-        let layer_point_indexation = self.load_point_indexation(graph_in, &description, data_in)?;
+        // we do not use mmap here
+        let layer_point_indexation =
+            self.load_point_indexation(graph_in, &description, data_in, None)?;
         let data_dim = layer_point_indexation.get_data_dimension();
         //
         let hnsw: Hnsw<T, D> = Hnsw {
@@ -622,6 +627,7 @@ impl HnswIo {
         graph_in: &mut dyn Read,
         descr: &Description,
         data_in: &mut dyn Read,
+        datamap: Option<&'a DataMap>,
     ) -> anyhow::Result<PointIndexation<'b, T>>
     where
         T: 'static + Serialize + DeserializeOwned + Clone + Sized + Send + Sync + std::fmt::Debug,
@@ -696,7 +702,8 @@ impl HnswIo {
                         }
                     }
                 };
-                let load_point_res = self.load_point(graph_in, descr, data_in, point_use_mmap);
+                let point_datamap = if point_use_mmap { datamap } else { None };
+                let load_point_res = self.load_point(graph_in, descr, data_in, point_datamap);
                 if let Err(other) = load_point_res {
                     error!("in load_point_indexation, loading of point {} failed", r);
                     return Err(anyhow!(other));
@@ -806,7 +813,7 @@ impl HnswIo {
         graph_in: &mut dyn Read,
         descr: &Description,
         data_in: &mut dyn Read,
-        point_use_mmap: bool,
+        datamap: Option<&'a DataMap>,
     ) -> Result<(Arc<Point<'b, T>>, Vec<Vec<Neighbour>>)>
     where
         T: 'static + DeserializeOwned + Clone + Sized + Send + Sync + std::fmt::Debug,
@@ -824,8 +831,8 @@ impl HnswIo {
         //
         // the point is loaded in memory if there is no datamap (as in load_hnsw_with_dist, or with NoData)
         // or if data are not aligned for T in the mapping.
-        let mapped: Option<&'b [T]> = match (point_use_mmap, self.datamap.as_ref()) {
-            (true, Some(datamap)) if datamap.is_aligned::<T>(&origin_id) => {
+        let mapped: Option<&'b [T]> = match datamap {
+            Some(datamap) if datamap.is_aligned::<T>(&origin_id) => {
                 datamap.get_data::<T>(&origin_id)
             }
             _ => None,
-- 
2.43.0

