From 29e8fac9f02d68a974794ba9da2b6c563c076f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:14 +0000
Subject: [PATCH 01/50] fix: publish a byte source's exception while holding
 the reader's lock

The worker stored the exception and notified without holding the mutex. A
consumer that had just checked its wait condition missed the notification
and waited forever.
---
 src/buffered_asynchronous_reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buffered_asynchronous_reader.cpp b/src/buffered_asynchronous_reader.cpp
index 9ecc5c8..dfa42f8 100644
--- a/src/buffered_asynchronous_reader.cpp
+++ b/src/buffered_asynchronous_reader.cpp
@@ -131,6 +131,9 @@ BufferedAsynchronousReader::BufferedAsynchronousReader(
 					ptr->worker_thread_has_done_something.notify_one();
 				}
 			}catch(...){
+				// The exception usually comes from byte_source, which runs without the lock.
+				if(!guard.owns_lock())
+					guard.lock();
 				ptr->read_exception = std::current_exception();
 				ptr->worker_thread_has_done_something.notify_one();
 			}
-- 
2.43.0


From ee00291cbb431f121ec235bc0bf4247e65310e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:14 +0000
Subject: [PATCH 02/50] fix: a reader that cannot start must throw instead of
 terminating

If the buffer could not be allocated or the thread not be created, the
destructor joined a thread that never existed and deleted an uninitialised
pointer.
---
 src/buffered_asynchronous_reader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buffered_asynchronous_reader.cpp b/src/buffered_asynchronous_reader.cpp
index dfa42f8..8eeab45 100644
--- a/src/buffered_asynchronous_reader.cpp
+++ b/src/buffered_asynchronous_reader.cpp
@@ -14,7 +14,7 @@ const int blocks_per_buffer = 5;
 
 struct BufferedAsynchronousReader::Impl{
 	unsigned block_size;
-	char*buffer;
+	char*buffer = nullptr;
 
 	unsigned data_begin, data_end;
 
@@ -35,7 +35,8 @@ struct BufferedAsynchronousReader::Impl{
 			was_termination_requested = true;
 		}
 		main_thread_has_done_something.notify_one();
-		worker.join();
+		if(worker.joinable())
+			worker.join();
 
 		delete[]buffer;
 	}
-- 
2.43.0


From 4571fecdc5a6b6a13481a3b608a9659e0ff77fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:39 +0000
Subject: [PATCH 03/50] hook: PBF block size can be set by a simulation (guard
 ROUTINGKIT_SIM)

---
 src/osm_decoder.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index b71b87e..4c895e2 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -43,6 +43,12 @@ static uint32_t ntohl(uint32_t netlong){
 
 namespace RoutingKit{
 
+#ifdef ROUTINGKIT_SIM
+// Only for deterministic simulation: a harness shrinks the blocks so that
+// small files already fill and wrap around the buffers of the reading threads.
+unsigned simulated_pbf_block_size = 64<<20;
+#endif
+
 namespace{
 
 	// formally
@@ -64,6 +70,14 @@ namespace{
 		return ret; // NVRO
 	}
 
+	unsigned get_pbf_block_size(){
+		#ifdef ROUTINGKIT_SIM
+		return simulated_pbf_block_size;
+		#else
+		return 64<<20;
+		#endif
+	}
+
 	const uint64_t is_header_info_available_bit = 1;
 	const uint64_t is_ordered_bit = 2;
 	const uint64_t was_blob_read_bit = 4;
@@ -74,11 +88,11 @@ namespace{
 		OsmPBFDecompressor():status(0){}
 		OsmPBFDecompressor(std::function<unsigned long long(char*, unsigned long long)> data_source):
 			status(0),
-			reader(data_source, 64<<20){
+			reader(data_source, get_pbf_block_size()){
 		}
 
 		unsigned long long minimum_read_size() const {
-			return (64 << 20);
+			return get_pbf_block_size();
 		}
 
 		uint64_t get_status() const {
-- 
2.43.0


From 219367d8963b0528c8ea10dae4fd6815af75dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:39 +0000
Subject: [PATCH 04/50] fix: ordered PBF reading must not wait forever for a
 header that never comes

An empty file or an error before the first header or data block left
ordered_read_osm_pbf spinning on the status word.
---
 src/osm_decoder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 4c895e2..182006c 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -103,6 +103,13 @@ namespace{
 			return [&](char*buffer, unsigned long long how_much_to_read)->unsigned long long{
 				assert(how_much_to_read >= minimum_read_size());
 
+				// ordered_read_osm_pbf waits for the header information. It must not
+				// wait forever if there is none because the file is empty or damaged.
+				struct HeaderInfoIsAvailableOnExit{
+					uint64_t&status;
+					~HeaderInfoIsAvailableOnExit(){ status |= is_header_info_available_bit; }
+				}header_info_is_available_on_exit = {status};
+
 				const char*blob_begin, *blob_end;
 
 				for(;;){
-- 
2.43.0


From 2d5a6d8d418853ea328382c66c1cf5f8d889d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:39 +0000
Subject: [PATCH 05/50] fix: report PBF files that end inside a block length or
 a skipped block

---
 src/osm_decoder.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 182006c..ad7c441 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -114,9 +114,11 @@ namespace{
 
 				for(;;){
 					char*p = reader.read(4);
-					if(p == nullptr)
+					if(p == nullptr){
+						if(reader.read(1) != nullptr)
+							throw std::runtime_error("OSM PBF file ends inside of the length of a block header");
 						return 0;
-
+					}
 
 					uint32_t header_size = ntohl(unaligned_load<uint32_t>(p));
 
@@ -180,7 +182,7 @@ namespace{
 						else
 							status = is_header_info_available_bit | was_header_read_bit;
 					} else {
-						reader.read(data_size);
+						reader.read_or_throw(data_size);
 						continue;
 					}
 				}
-- 
2.43.0


From 4d9127cf38c3740e03257fb602d2185b3a5255a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:39 +0000
Subject: [PATCH 06/50] fix: release the zlib stream if a PBF block cannot be
 inflated

---
 src/osm_decoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index ad7c441..af9a9bc 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -248,6 +248,7 @@ namespace{
 						throw std::runtime_error("PBF error: Failed to initialize zlib stream.");
 					}
 					if(inflate(&z, Z_FINISH) != Z_STREAM_END) {
+						inflateEnd(&z);
 						throw std::runtime_error("PBF error: Failed to completely inflate zlib stream. Probably the OSM blob decompresses to something larger than reported in the header.");
 					}
 					if(inflateEnd(&z) != Z_OK) {
-- 
2.43.0


From 536d10b9e32465a96d8a58a58925a480c4577be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:39 +0000
Subject: [PATCH 07/50] fix: reject PBF tags that reference the string one past
 the end of the table

---
 src/osm_decoder.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index af9a9bc..0a4a539 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -389,13 +389,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -462,13 +462,13 @@ namespace {
 							key_list.size(),
 							[&](uint64_t i){
 								i = key_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: key string ID is out of bounds.");
 								return string_table[i];
 							},
 							[&](uint64_t i){
 								i = value_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: value string ID is out of bounds.");
 								return string_table[i];
 							}
@@ -532,13 +532,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -612,13 +612,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
-- 
2.43.0


From e4dd82a1cb82018a4684125913e755935c2428c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:39 +0000
Subject: [PATCH 08/50] fix: decode individual PBF nodes and coordinate offsets
 as the format says

Individual nodes use fields 8 and 9 and a zigzag-coded id; block offsets are
plain int64, belong to their own axis and are added once, not per delta.
---
 src/osm_decoder.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 0a4a539..d3fafb9 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -309,9 +309,9 @@ namespace {
 					if(key_id == 17)
 						latlon_granularity = num;
 					else if(key_id == 19)
-						offset_of_latitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_latitude = static_cast<int64_t>(num);
 					else if(key_id == 20)
-						offset_of_longitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_longitude = static_cast<int64_t>(num);
 
 				},
 				[&](uint64_t key_id, double num){},
@@ -339,8 +339,8 @@ namespace {
 			if(latlon_granularity == 0)
 				throw std::runtime_error("PBF error: latlon_granularity of a block must not be zero.");
 
-			double primblock_lon_offset = 0.000000001 * offset_of_latitude;
-			double primblock_lat_offset = 0.000000001 * offset_of_longitude;
+			double primblock_lat_offset = 0.000000001 * offset_of_latitude;
+			double primblock_lon_offset = 0.000000001 * offset_of_longitude;
 			double primblock_granularity = 0.000000001 * latlon_granularity;
 
 			auto decode_sparse_node = [&](const char*begin, const char*end){
@@ -355,11 +355,11 @@ namespace {
 					begin, end,
 					[&](uint64_t key_id, uint64_t num){
 						if(key_id == 1)
-							osm_node_id = num;
-						else if(key_id == 19)
-							latitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
-						else if(key_id == 20)
-							longitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+							osm_node_id = zigzag_convert_uint64_to_int64(num);
+						else if(key_id == 8)
+							latitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+						else if(key_id == 9)
+							longitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 					},
 					[&](uint64_t key_id, double num){},
 					[&](uint64_t key_id, const char*begin, const char*end){
@@ -442,11 +442,13 @@ namespace {
 				tag_map.clear();
 
 				uint64_t osm_node_id = 0;
-				double latitude = 0.0, longitude = 0.0;
+				int64_t scaled_latitude = 0, scaled_longitude = 0;
 				while(osm_node_id_begin != osm_node_id_end){
 					osm_node_id += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(osm_node_id_begin, osm_node_id_end));
-					latitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
-					longitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
+					scaled_latitude += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
+					scaled_longitude += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
+					double latitude = primblock_lat_offset + primblock_granularity * scaled_latitude;
+					double longitude = primblock_lon_offset + primblock_granularity * scaled_longitude;
 					if(key_value_pairs_begin != nullptr){
 						key_list.clear();
 						value_list.clear();
-- 
2.43.0


From 2403cc22410dc16aa63e56d7952f592885321b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:39 +0000
Subject: [PATCH 09/50] fix: TagMap::clear must also remove the entries

Iteration, size and empty still showed the previous tags, whose strings may
no longer exist.
---
 include/routingkit/tag_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/routingkit/tag_map.h b/include/routingkit/tag_map.h
index 2de6a27..2f1acc3 100644
--- a/include/routingkit/tag_map.h
+++ b/include/routingkit/tag_map.h
@@ -55,6 +55,8 @@ public:
 			entry_begin[x>>16] = 0;
 			entry_end[x>>16] = 0;
 		}
+		hash_element_list.clear();
+		entry.clear();
 	}
 
 	template<class GetKey, class GetValue>
-- 
2.43.0


From 1b45607d7192cb199f7717bfcde0e67d883fa660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:28 +0000
Subject: [PATCH 10/50] fix: pinning more targets or sources than there are
 nodes must not write out of bounds

---
 src/contraction_hierarchy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 794c7c6..d86c549 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1869,6 +1869,8 @@ namespace{
 		const std::vector<unsigned>&backward_head,
 		const std::vector<unsigned>&backward_weight
 	){
+		if(target_list.size() < external_target_list.size())
+			target_list.resize(external_target_list.size());
 		target_count = external_target_list.size();
 
 		for(unsigned i=0; i<target_count; ++i){
-- 
2.43.0


From 41af869e1991d001ac9031467bc3bbf0b4cdeb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:14 +0000
Subject: [PATCH 11/50] fix: a default constructed IDSetMinQueue must be empty
 instead of uninitialised

---
 include/routingkit/id_set_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/id_set_queue.h b/include/routingkit/id_set_queue.h
index fc285aa..6b60753 100644
--- a/include/routingkit/id_set_queue.h
+++ b/include/routingkit/id_set_queue.h
@@ -105,7 +105,7 @@ private:
 	}
 
 public:
-	IDSetMinQueue(){}
+	IDSetMinQueue():max_number_of_ids(0), min_id(invalid_id), offset(1){}
 
 	//! The queue may contain IDs from 0 to n-1.
 	explicit IDSetMinQueue(unsigned n):
-- 
2.43.0


From d06052c46699db9bf3e59e116e96081afe05c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:08 +0000
Subject: [PATCH 12/50] fix: perfect witness search on a filtered CCH must not
 keep shortcuts over removed arcs

---
 src/customizable_contraction_hierarchy.cpp | 31 ++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 04f29a3..67b7093 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1796,6 +1796,37 @@ ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_h
 		);
 	#endif
 
+	// If arcs were filtered from the CCH, then not every shortcut that is longer than a shortest path is detected above.
+	// Such a shortcut can contain an arc that was removed. It is then not needed either and cannot be unpacked.
+	for(unsigned a=0; a<cch->cch_arc_count(); ++a){
+		if(keep_forward_arc.is_set(a) && unpack_original_forward_arc(*cch, *this, a) == invalid_id){
+			bool can_not_be_unpacked = forall_lower_triangles_of_arc(
+				*cch, a,
+				[&](unsigned bottom_arc, unsigned mid_arc, unsigned top_arc, unsigned, unsigned, unsigned){
+					return !(
+						keep_backward_arc.is_set(bottom_arc) && keep_forward_arc.is_set(mid_arc) &&
+						backward[bottom_arc] + forward[mid_arc] == forward[top_arc]
+					);
+				}
+			);
+			if(can_not_be_unpacked)
+				keep_forward_arc.reset(a);
+		}
+		if(keep_backward_arc.is_set(a) && unpack_original_backward_arc(*cch, *this, a) == invalid_id){
+			bool can_not_be_unpacked = forall_lower_triangles_of_arc(
+				*cch, a,
+				[&](unsigned bottom_arc, unsigned mid_arc, unsigned top_arc, unsigned, unsigned, unsigned){
+					return !(
+						keep_backward_arc.is_set(mid_arc) && keep_forward_arc.is_set(bottom_arc) &&
+						backward[mid_arc] + forward[bottom_arc] == backward[top_arc]
+					);
+				}
+			);
+			if(can_not_be_unpacked)
+				keep_backward_arc.reset(a);
+		}
+	}
+
 	ContractionHierarchy ch;
 
 	ch.rank = cch->rank;
-- 
2.43.0


From 81140a62d0c2a15c41580a3202f425b5817b5ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:11 +0000
Subject: [PATCH 13/50] fix: reset of a default constructed CCH query must not
 compare with an uninitialised pointer

---
 include/routingkit/customizable_contraction_hierarchy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 942d91c..8399fcf 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -123,7 +123,7 @@ struct CustomizableContractionHierarchyPartialCustomization{
 };
 
 struct CustomizableContractionHierarchyQuery{
-	CustomizableContractionHierarchyQuery(){}
+	CustomizableContractionHierarchyQuery():shortest_path_meeting_node(invalid_id), cch(nullptr), metric(nullptr), state(0){}
 	explicit CustomizableContractionHierarchyQuery(const CustomizableContractionHierarchyMetric&metric);
 
 	CustomizableContractionHierarchyQuery&reset();
-- 
2.43.0


From b12b1e2c91667f472d590a1e7ec3774a8d4e5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:38 +0000
Subject: [PATCH 14/50] fix: a CCH query whose add or pin operation ran out of
 memory must stay resettable

---
 src/customizable_contraction_hierarchy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 67b7093..085892e 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1119,6 +1119,8 @@ namespace{
 
 		if(forward_tentative_distance[s] == inf_weight){
 
+			source_elimination_tree_end.resize(source_node.size()+1);
+			source_elimination_tree_end.back() = invalid_id;
 			source_node.push_back(s);
 			forward_tentative_distance[s] = dist_to_s;
 			forward_predecessor_node[s] = invalid_id;
@@ -1130,13 +1132,11 @@ namespace{
 						in_forward_search_space[x] = true;
 						return true;
 					} else {
-						source_elimination_tree_end.push_back(x);
+						source_elimination_tree_end.back() = x;
 						return false;
 					}
 				}
 			);
-			if(source_elimination_tree_end.size() != source_node.size())
-				source_elimination_tree_end.push_back(invalid_id);
 		}else{
 			min_to(forward_tentative_distance[s], dist_to_s);
 		}
@@ -1545,8 +1545,8 @@ namespace{
 		const std::vector<unsigned>&rank,
 		const std::vector<unsigned>&target_list
 	){
-		target_node.resize(target_list.size());
 		target_elimination_tree_end.resize(target_list.size());
+		target_node.resize(target_list.size());
 
 		for(unsigned i=0; i<target_list.size(); ++i){
 			target_node[i] = rank[target_list[i]];
-- 
2.43.0


From 1fb04d3448fd90cee27503d6e0c97b80f842f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:30 +0000
Subject: [PATCH 15/50] fix: Dijkstra::reset to another graph must not read the
 old graph or keep half a state

---
 include/routingkit/dijkstra.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/routingkit/dijkstra.h b/include/routingkit/dijkstra.h
index 6a3d3e3..3ae4336 100644
--- a/include/routingkit/dijkstra.h
+++ b/include/routingkit/dijkstra.h
@@ -40,7 +40,7 @@ public:
 		assert(first_out.back() == tail.size());
 		assert(first_out.back() == head.size());
 
-		if(this->first_out != nullptr && first_out.size() == this->first_out->size()){
+		if(this->first_out != nullptr && first_out.size()-1 == tentative_distance.size()){
 			this->first_out = &first_out;
 			this->head = &head;
 			this->tail = &tail;
@@ -48,13 +48,7 @@ public:
 			was_popped.reset_all();
 			return *this;
 		}else{
-			this->first_out = &first_out;
-			this->head = &head;
-			this->tail = &tail;
-			tentative_distance.resize(first_out.size()-1);
-			predecessor_arc.resize(first_out.size()-1);
-			was_popped = TimestampFlags(first_out.size()-1);
-			queue = MinIDQueue(first_out.size()-1);
+			*this = Dijkstra(first_out, tail, head);
 			return *this;
 		}
 	}
-- 
2.43.0


From 6500eadacce415721bf6ddda771d6f97942c2f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:46 +0000
Subject: [PATCH 16/50] fix: saving a file must throw if not all of it could be
 written

---
 include/routingkit/vector_io.h | 6 ++++++
 src/vector_io.cpp              | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/routingkit/vector_io.h b/include/routingkit/vector_io.h
index 4de32ad..dc76f94 100644
--- a/include/routingkit/vector_io.h
+++ b/include/routingkit/vector_io.h
@@ -19,6 +19,9 @@ void save_vector(const std::string&file_name, const std::vector<T>&vec){
 	if(!out)
 		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	out.write(reinterpret_cast<const char*>(&vec[0]), vec.size()*sizeof(T));
+	out.close();
+	if(!out)
+		throw std::runtime_error("Can not write \""+file_name+"\" completely.");
 }
 
 template<class T>
@@ -158,6 +161,9 @@ void open_file_for_saving(const std::string&file_name, const F&f){
 	if(!out)
 		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	f(out);
+	out.close();
+	if(!out)
+		throw std::runtime_error("Can not write \""+file_name+"\" completely.");
 }
 
 template<class F>
diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 331cdd3..c00b288 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -5,10 +5,15 @@ namespace RoutingKit{
 template<>
 void save_vector<std::string>(const std::string&file_name, const std::vector<std::string>&vec){
 	std::ofstream out(file_name, std::ios::binary);
+	if(!out)
+		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	for(unsigned i=0; i<vec.size(); ++i){
 		const char*x = vec[i].c_str();
 		out.write(x, vec[i].length()+1);
 	}
+	out.close();
+	if(!out)
+		throw std::runtime_error("Can not write \""+file_name+"\" completely.");
 }
 
 template<>
@@ -41,6 +46,9 @@ void save_bit_vector(const std::string&file_name, const BitVector&vec){
 	uint64_t size = vec.size();
 	out.write(reinterpret_cast<const char*>(&size), 8);
 	out.write(reinterpret_cast<const char*>(vec.data()), vec.uint512_count()*64);
+	out.close();
+	if(!out)
+		throw std::runtime_error("Can not write \""+file_name+"\" completely.");
 }
 
 BitVector load_bit_vector(const std::string&file_name){
-- 
2.43.0


From 7407b0ab74bd8387f2cf7fe63aa96d31424dcde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:46 +0000
Subject: [PATCH 17/50] fix: loading a file must throw if not all of it could
 be read

---
 include/routingkit/vector_io.h | 6 ++++++
 src/vector_io.cpp              | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/include/routingkit/vector_io.h b/include/routingkit/vector_io.h
index dc76f94..ba7f5ce 100644
--- a/include/routingkit/vector_io.h
+++ b/include/routingkit/vector_io.h
@@ -32,11 +32,15 @@ std::vector<T>load_vector(const std::string&file_name){
 		throw std::runtime_error("Can not open \""+file_name+"\" for reading.");
 	in.seekg(0, std::ios::end);
 	unsigned long long file_size = in.tellg();
+	if(!in)
+		throw std::runtime_error("Can not determine the size of \""+file_name+"\".");
 	if(file_size % sizeof(T) != 0)
 		throw std::runtime_error("File \""+file_name+"\" can not be a vector of the requested type because it's size is no multiple of the element type's size.");
 	in.seekg(0, std::ios::beg);
 	std::vector<T>vec(file_size / sizeof(T));
 	in.read(reinterpret_cast<char*>(&vec[0]), file_size);
+	if(!in)
+		throw std::runtime_error("Can not read \""+file_name+"\" completely.");
 	return vec; // NVRO
 }
 
@@ -175,6 +179,8 @@ void open_file_for_loading(const std::string&file_name, const F&f){
 	in.seekg(0, std::ios_base::end);
 	unsigned long long file_size = in.tellg();
 	in.seekg(0, std::ios_base::beg);
+	if(!in)
+		throw std::runtime_error("Can not determine the size of \""+file_name+"\".");
 	f(in, file_size);
 }
 
diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index c00b288..55ad868 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -61,10 +61,14 @@ BitVector load_bit_vector(const std::string&file_name){
 	
 	uint64_t size;
 	in.read(reinterpret_cast<char*>(&size), 8);
+	if(!in)
+		throw std::runtime_error("Can not read the size of the bit vector in \""+file_name+"\".");
 	if(((size+511)/512) * 64 + 8 != file_size)
 		throw std::runtime_error("File \""+file_name+"\" can not be a bit vector of the requested size because the size in the header and the file size do not correspond.");
 	BitVector vec(size);
 	in.read(reinterpret_cast<char*>(vec.data()), (((size+511)/512) * 64));
+	if(!in)
+		throw std::runtime_error("Can not read \""+file_name+"\" completely.");
 	return vec; // NVRO
 }
 
-- 
2.43.0


From 828451c7aa4fb629a3e86a4f976b500587b5a48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:24 +0000
Subject: [PATCH 18/50] fix: loading strings must reject a file whose last
 string is cut off

---
 src/vector_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 55ad868..a958fc7 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -35,6 +35,9 @@ std::vector<std::string>load_vector<std::string>(const std::string&file_name){
 		}
 	}
 
+	if(str_begin != data_end)
+		throw std::runtime_error("File \""+file_name+"\" can not be a vector of strings because the last string is not terminated.");
+
 	ret.shrink_to_fit();
 	return ret; // NVRO
 }
-- 
2.43.0


From 31334fec21808fc9388fb0d4219902e8ce5eb80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:50 +0000
Subject: [PATCH 19/50] fix: loading a bit vector must reject a header whose
 size overflows

---
 src/vector_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index a958fc7..b0361a4 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -66,7 +66,7 @@ BitVector load_bit_vector(const std::string&file_name){
 	in.read(reinterpret_cast<char*>(&size), 8);
 	if(!in)
 		throw std::runtime_error("Can not read the size of the bit vector in \""+file_name+"\".");
-	if(((size+511)/512) * 64 + 8 != file_size)
+	if(size > file_size*8 || ((size+511)/512) * 64 + 8 != file_size)
 		throw std::runtime_error("File \""+file_name+"\" can not be a bit vector of the requested size because the size in the header and the file size do not correspond.");
 	BitVector vec(size);
 	in.read(reinterpret_cast<char*>(vec.data()), (((size+511)/512) * 64));
-- 
2.43.0


From f8955201048008deee9e39b5e3c26482a67864e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:31 +0000
Subject: [PATCH 20/50] fix: travel times of long arcs must not overflow

---
 src/osm_simple.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/osm_simple.cpp b/src/osm_simple.cpp
index 5410e1f..bfeaf40 100644
--- a/src/osm_simple.cpp
+++ b/src/osm_simple.cpp
@@ -1,7 +1,9 @@
 #include <routingkit/osm_graph_builder.h>
 #include <routingkit/osm_profile.h>
 #include <routingkit/osm_simple.h>
+#include <routingkit/constants.h>
 
+#include <algorithm>
 #include <vector>
 #include <stdint.h>
 #include <string>
@@ -51,9 +53,12 @@ SimpleOSMCarRoutingGraph simple_load_osm_car_routing_graph_from_pbf(
 
 	ret.travel_time = ret.geo_distance;
 	for(unsigned a=0; a<ret.travel_time.size(); ++a){
-		ret.travel_time[a] *= 18000;
-		ret.travel_time[a] /= way_speed[routing_graph.way[a]];
-		ret.travel_time[a] /= 5;
+		// 32 bits are not enough for the intermediate product of arcs longer than 238km, such as ferries.
+		uint64_t travel_time = ret.travel_time[a];
+		travel_time *= 18000;
+		travel_time /= way_speed[routing_graph.way[a]];
+		travel_time /= 5;
+		ret.travel_time[a] = std::min<uint64_t>(travel_time, inf_weight);
 	}
 
 	ret.forbidden_turn_from_arc = std::move(routing_graph.forbidden_turn_from_arc);
-- 
2.43.0


From 6b952075341405adfd46f2af34d746347f4eb4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:52 +0000
Subject: [PATCH 21/50] fix: one via node reached by two arcs of a way is not
 ambiguous

---
 src/osm_graph_builder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm_graph_builder.cpp b/src/osm_graph_builder.cpp
index c5e0130..3a96d09 100644
--- a/src/osm_graph_builder.cpp
+++ b/src/osm_graph_builder.cpp
@@ -523,10 +523,10 @@ OSMRoutingGraph load_osm_routing_graph_from_pbf(
 						for(auto i=first_index_of_way[in->to_way]; i!=first_index_of_way[in->to_way+1]; ++i){
 							auto arc = index_to_arc[i];
 							if(is_head_of_from_way[tail[arc]]){
-								if(via_node != invalid_id){
-									second_via_node = tail[arc];
-								} else {
+								if(via_node == invalid_id){
 									via_node = tail[arc];
+								} else if(via_node != tail[arc]){
+									second_via_node = tail[arc];
 								}
 							}
 						}
-- 
2.43.0


From aca60217576194e3144048628ee997f02eaa38f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:53 +0000
Subject: [PATCH 22/50] fix: the distance between equal positions must not be
 NaN

---
 include/routingkit/geo_dist.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/routingkit/geo_dist.h b/include/routingkit/geo_dist.h
index 0bf59bb..7f55d33 100644
--- a/include/routingkit/geo_dist.h
+++ b/include/routingkit/geo_dist.h
@@ -115,6 +115,13 @@ inline double geo_dist(double lat_a, double lon_a, double lat_b, double lon_b){
 
 	double len = (vec[0] + vec[1]) * vec[2] + vec[0] - vec[1];
 	len *= 0.5;
+
+	// Rounding can push the cosine slightly out of the domain of acos, for example if both positions are the same.
+	if(len > 1.0)
+		len = 1.0;
+	if(len < -1.0)
+		len = -1.0;
+
 	len  = acos(len);
 	len *= earth_radius;
 
-- 
2.43.0


From 0d537167ad9a2b66f83e17e317dba72505895f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:12 +0000
Subject: [PATCH 23/50] fix: building a spatial index with nearly opposite
 points must not sort NaNs

---
 src/geo_position_to_node.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geo_position_to_node.cpp b/src/geo_position_to_node.cpp
index d095f46..1383487 100644
--- a/src/geo_position_to_node.cpp
+++ b/src/geo_position_to_node.cpp
@@ -98,6 +98,11 @@ namespace{
 					for(unsigned j=0; j<element_count; ++j){
 						// GCC5 does not have vectorized versions of atan2f nor sqrtf
 						// we therefore call the sequential functions as they would prevent the vectorization of the previous loop
+						// Rounding can push a_ slightly out of [0,1] for nearly opposite points and near the poles. The resulting NaNs would break std::nth_element.
+						if(a_[j] < 0.0f)
+							a_[j] = 0.0f;
+						if(a_[j] > 1.0f)
+							a_[j] = 1.0f;
 						float c = 2 * atan2f(sqrtf(a_[j]), sqrtf(1-a_[j]));
 						d[i+j].distance_to_pivot = R * c;
 					}
-- 
2.43.0


From ff1f66f99f5a214614b6829eeed067945ba2b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:16 +0000
Subject: [PATCH 24/50] fix: logging must not divide by zero when building a
 CCH of an empty graph

---
 src/customizable_contraction_hierarchy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 085892e..06b4a58 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -416,7 +416,7 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 		log_message("Finished computing elimination tree, needed "+std::to_string(timer)+"musec");
 	}
 
-	if(log_message){
+	if(log_message && node_count != 0){
 		std::vector<unsigned>
 			nodes_in_search_space(node_count, 0),
 			arcs_in_search_space(node_count, 0);
-- 
2.43.0


From 6f1f1e9430d7d205e9011f3ea38759dcf2bad1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:16 +0000
Subject: [PATCH 25/50] fix: a CCH can be built without a log callback

---
 src/customizable_contraction_hierarchy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 06b4a58..d0291f1 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -450,7 +450,10 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 
 	// filter up graph
 	if(!filter_always_inf_arcs)
-		log_message("Not filtering upward arcs");
+	{
+		if(log_message)
+			log_message("Not filtering upward arcs");
+	}
 	else
 	{
 		if(log_message){
-- 
2.43.0


From add53de0a157e016f367ddd8c8e64a13a817f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:39 +0000
Subject: [PATCH 26/50] fix: a copy of a CCH must not reference the bit vectors
 of the original

---
 .../customizable_contraction_hierarchy.h      |  6 ++++
 src/customizable_contraction_hierarchy.cpp    | 28 +++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 8399fcf..059a8b4 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -17,6 +17,12 @@ class ContractionHierarchy;
 struct CustomizableContractionHierarchy{
 	CustomizableContractionHierarchy(){}
 
+	// The ID mappers reference the bit vectors stored in the same object. A copy must thus get its own mappers.
+	CustomizableContractionHierarchy(const CustomizableContractionHierarchy&);
+	CustomizableContractionHierarchy(CustomizableContractionHierarchy&&) = default;
+	CustomizableContractionHierarchy&operator=(const CustomizableContractionHierarchy&);
+	CustomizableContractionHierarchy&operator=(CustomizableContractionHierarchy&&) = default;
+
 	CustomizableContractionHierarchy(std::vector<unsigned>order, std::vector<unsigned>tail, std::vector<unsigned>head, std::function<void(const std::string&)>log_message = [](const std::string&){}, bool filter_always_inf_arcs = false);
 
 	unsigned node_count()const{
diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index d0291f1..78c0cb1 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -193,6 +193,34 @@ namespace{
 	#endif
 }
 
+CustomizableContractionHierarchy::CustomizableContractionHierarchy(const CustomizableContractionHierarchy&o):
+	order(o.order),
+	rank(o.rank),
+	elimination_tree_parent(o.elimination_tree_parent),
+	up_first_out(o.up_first_out),
+	up_head(o.up_head),
+	up_tail(o.up_tail),
+	down_first_out(o.down_first_out),
+	down_head(o.down_head),
+	down_to_up(o.down_to_up),
+	input_arc_to_cch_arc(o.input_arc_to_cch_arc),
+	is_input_arc_upward(o.is_input_arc_upward),
+	does_cch_arc_have_input_arc(o.does_cch_arc_have_input_arc),
+	does_cch_arc_have_input_arc_mapper(does_cch_arc_have_input_arc),
+	forward_input_arc_of_cch(o.forward_input_arc_of_cch),
+	backward_input_arc_of_cch(o.backward_input_arc_of_cch),
+	does_cch_arc_have_extra_input_arc(o.does_cch_arc_have_extra_input_arc),
+	does_cch_arc_have_extra_input_arc_mapper(does_cch_arc_have_extra_input_arc),
+	first_extra_forward_input_arc_of_cch(o.first_extra_forward_input_arc_of_cch),
+	first_extra_backward_input_arc_of_cch(o.first_extra_backward_input_arc_of_cch),
+	extra_forward_input_arc_of_cch(o.extra_forward_input_arc_of_cch),
+	extra_backward_input_arc_of_cch(o.extra_backward_input_arc_of_cch)
+{}
+
+CustomizableContractionHierarchy&CustomizableContractionHierarchy::operator=(const CustomizableContractionHierarchy&o){
+	return *this = CustomizableContractionHierarchy(o);
+}
+
 CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 	std::vector<unsigned>arg_order,
 	std::vector<unsigned>input_tail,
-- 
2.43.0


From 77495ce5067e3d2dbc2f59d2c877a2f303a6417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:30 +0000
Subject: [PATCH 27/50] fix: logging must not read the degrees of an empty
 graph when building a contraction hierarchy

---
 src/contraction_hierarchy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index d86c549..90572a4 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1071,11 +1071,11 @@ namespace {
 			std::vector<unsigned>deg(node_count, 0);
 			for(unsigned i=0; i<tail.size(); ++i)
 				++deg[tail[i]];
-			unsigned max_out_degree = max_element_of(deg);
+			unsigned max_out_degree = max_element_of(deg, 0u);
 			std::fill(deg.begin(), deg.end(), 0);
 			for(unsigned i=0; i<tail.size(); ++i)
 				++deg[head[i]];
-			unsigned max_in_degree = max_element_of(deg);
+			unsigned max_in_degree = max_element_of(deg, 0u);
 			log_message("The input's maximum in-degree is "+std::to_string(max_in_degree)+" and its maximum out-degree is "+std::to_string(max_out_degree)+".");
 
 		}
-- 
2.43.0


From 739f0496cf07c78f31a28a6aea29d835009c636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:26 +0000
Subject: [PATCH 28/50] fix: an empty graph has no connected component

---
 src/nested_dissection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nested_dissection.cpp b/src/nested_dissection.cpp
index 7907c87..ac56b3a 100644
--- a/src/nested_dissection.cpp
+++ b/src/nested_dissection.cpp
@@ -718,7 +718,8 @@ std::vector<GraphFragment>decompose_graph_fragment_into_connected_components(Gra
 		}
 		++component_node_end;
 	}
-	generate_part(component_node_begin, component_node_end, component_arc_begin, arc_count);
+	if(node_count != 0)
+		generate_part(component_node_begin, component_node_end, component_arc_begin, arc_count);
 	
 	return part_list; // NVRO
 }
-- 
2.43.0


From 2afa8afd3a8e145c2a853a366dd7059896d6f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:16 +0000
Subject: [PATCH 29/50] fix: bit vectors whose size is a multiple of 512

The mask of the non-padding bits of the last block was empty when the size is
a multiple of 512, so are_all_set ignored the last block and growing with ones
set or cleared the wrong bits and could touch memory behind the data.
---
 src/bit_vector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index 3d7d888..c2dfccc 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -116,6 +116,9 @@ namespace {
 		v8_uint64_t u = {0};
 
 		uint64_t x = size % 512;
+		if(x == 0)
+			return ~u; // the last block has no padding bits
+
 		uint8_t i = 0;
 		while(x >= 64){
 			u[i++] = ~0ull;
@@ -320,7 +323,7 @@ void BitVector::resize(uint64_t new_size, bool value){
 			if(value == false){
 				size_ = new_size;
 			} else {
-				((v8_uint64_t*)data_)[size_/512] |= get_padding_mask(new_size) & ~get_padding_mask(size_);
+				((v8_uint64_t*)data_)[(size_-1)/512] |= get_padding_mask(new_size) & ~get_padding_mask(size_);
 				size_ = new_size;
 			}
 		} else {
-- 
2.43.0


From 20d58f9721d2d531524a4410b61a4d43834c1e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:16 +0000
Subject: [PATCH 30/50] fix: growing a copy of an empty bit vector with ones
 wrote before its data

---
 src/bit_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index c2dfccc..2759703 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -313,7 +313,7 @@ void BitVector::resize(uint64_t new_size, BitVector::Uninitialized){
 }
 
 void BitVector::resize(uint64_t new_size, bool value){
-	if(data_ == nullptr){
+	if(size_ == 0){
 		*this = BitVector(new_size, value);
 	}else{
 		assert(are_all_padding_bits_zero(*this));
-- 
2.43.0


From f66710d5ee22173e8a8a8f1dc186dea11918430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:29 +0000
Subject: [PATCH 31/50] fix: decode_vector must print int8 and uint8 elements
 as numbers

---
 src/decode_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode_vector.cpp b/src/decode_vector.cpp
index ab8afe2..1a2f639 100644
--- a/src/decode_vector.cpp
+++ b/src/decode_vector.cpp
@@ -13,7 +13,7 @@ void convert_num_data(const string&input_vector_file){
 	vector<T>v = load_vector<T>(input_vector_file);
 
 	for(auto&x:v)
-		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << x << '\n';
+		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << +x << '\n';
 }
 
 string replace_all_substrings(string subject, const string& search, const string& replace) {
-- 
2.43.0


From b6f92737b9894baf1db93a3464ba4c9056cb76c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:29 +0000
Subject: [PATCH 32/50] fix: encode_vector must not read the n after an escaped
 backslash as a newline

---
 src/encode_vector.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/encode_vector.cpp b/src/encode_vector.cpp
index 4f25cb6..d83a104 100644
--- a/src/encode_vector.cpp
+++ b/src/encode_vector.cpp
@@ -42,20 +42,24 @@ void convert_uint64_data(const string&output_vector_file){
 	save_vector(output_vector_file, v);
 }
 
-string replace_all_substrings(string subject, const string& search, const string& replace) {
-    size_t pos = 0;
-    while ((pos = subject.find(search, pos)) != std::string::npos) {
-         subject.replace(pos, search.length(), replace);
-         pos += replace.length();
-    }
-    return subject;
+string unescape(const string&line){
+	string ret;
+	for(size_t i=0; i<line.size(); ++i){
+		if(line[i] == '\\' && i+1 < line.size() && (line[i+1] == '\\' || line[i+1] == 'n')){
+			++i;
+			ret += line[i] == 'n' ? '\n' : '\\';
+		}else{
+			ret += line[i];
+		}
+	}
+	return ret;
 }
 
 void convert_string_data(const string&output_vector_file){
 	string line;
 	vector<string>v;
 	while(getline(cin, line)){
-		v.push_back(replace_all_substrings(replace_all_substrings(line, "\\\\", "\\"), "\\n", "\n"));
+		v.push_back(unescape(line));
 	}
 	save_vector(output_vector_file, v);
 }
-- 
2.43.0


From c6fb7e019a76c79b5e39c0542e50d1f5e5a836ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:29 +0000
Subject: [PATCH 33/50] fix: tools must report output that could not be written

---
 src/compare_vector.cpp | 4 ++++
 src/decode_vector.cpp  | 4 ++++
 src/examine_ch.cpp     | 4 ++++
 src/graph_to_dot.cpp   | 3 +++
 src/graph_to_svg.cpp   | 3 +++
 src/show_path.cpp      | 3 ++-
 6 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/compare_vector.cpp b/src/compare_vector.cpp
index 27dc416..589e2e2 100644
--- a/src/compare_vector.cpp
+++ b/src/compare_vector.cpp
@@ -131,6 +131,10 @@ int main(int argc, char*argv[]){
 			compare_string_data(vector1_file, vector2_file);
 		else
 			throw runtime_error("Unknown data type \""+data_type+"\"");
+
+		cout.flush();
+		if(!cout)
+			throw runtime_error("Can not write to the standard output completely.");
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
 	}
diff --git a/src/decode_vector.cpp b/src/decode_vector.cpp
index 1a2f639..946f7e1 100644
--- a/src/decode_vector.cpp
+++ b/src/decode_vector.cpp
@@ -81,6 +81,10 @@ int main(int argc, char*argv[]){
 			convert_string_data(input_vector_file);
 		else
 			throw runtime_error("Unknown data type \""+data_type+"\"");
+
+		cout.flush();
+		if(!cout)
+			throw runtime_error("Can not write to the standard output completely.");
 	}catch(exception&err){
 		cerr << "Stopped on exception : "<< err.what() << endl;
 	}
diff --git a/src/examine_ch.cpp b/src/examine_ch.cpp
index d6be09a..95c9e89 100644
--- a/src/examine_ch.cpp
+++ b/src/examine_ch.cpp
@@ -40,6 +40,10 @@ int main(int argc, char*argv[]){
 		cout << "node_count : "<< ch.rank.size() << endl;
 		cout << "forward_ch_arc_count : "<< ch.forward.head.size() << endl;
 		cout << "backward_ch_arc_count : "<< ch.backward.head.size() << endl;
+
+		cout.flush();
+		if(!cout)
+			throw runtime_error("Can not write to the standard output completely.");
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
 	}
diff --git a/src/graph_to_dot.cpp b/src/graph_to_dot.cpp
index 12ff15f..e2aa6e0 100644
--- a/src/graph_to_dot.cpp
+++ b/src/graph_to_dot.cpp
@@ -49,6 +49,9 @@ int main(int argc, char*argv[]){
 			}
 		}
 		out << "}\n";
+		out.close();
+		if(!out)
+			throw std::runtime_error("Can not write file "+dot_file+" completely");
 
 		cout << "done" << endl;
 
diff --git a/src/graph_to_svg.cpp b/src/graph_to_svg.cpp
index 1fc6480..607fd2c 100644
--- a/src/graph_to_svg.cpp
+++ b/src/graph_to_svg.cpp
@@ -75,6 +75,9 @@ int main(int argc, char*argv[]){
 			}
 		}
 		out << "</svg>\n";
+		out.close();
+		if(!out)
+			throw std::runtime_error("Can not write file "+svg_file+" completely");
 
 		cout << "done" << endl;
 
diff --git a/src/show_path.cpp b/src/show_path.cpp
index 8bc072c..1872809 100644
--- a/src/show_path.cpp
+++ b/src/show_path.cpp
@@ -67,7 +67,8 @@ int main(int argc, char*argv[]){
 				"\t</Placemark>\n"
 				"</Document>\n"
 				"</kml>" << endl;
-
+			if(!cout)
+				throw runtime_error("Can not write to the standard output completely.");
 		}
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
-- 
2.43.0


From b059c7b6c2f8a98d0f6af5425b848c27966b677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:29 +0000
Subject: [PATCH 34/50] fix: tools must report text input that is incomplete

---
 src/convert_road_dimacs_coordinates.cpp | 5 +++++
 src/convert_road_dimacs_graph.cpp       | 5 +++++
 src/encode_vector.cpp                   | 9 +++++++++
 src/show_path.cpp                       | 3 +++
 4 files changed, 22 insertions(+)

diff --git a/src/convert_road_dimacs_coordinates.cpp b/src/convert_road_dimacs_coordinates.cpp
index 110aef3..8b0542b 100644
--- a/src/convert_road_dimacs_coordinates.cpp
+++ b/src/convert_road_dimacs_coordinates.cpp
@@ -88,6 +88,11 @@ int main(int argc, char*argv[]){
 			}
 		}
 
+		if(in.bad())
+			throw std::runtime_error("Can not read \""+dimacs_coord_file+"\" completely.");
+		if(!was_header_read)
+			throw std::runtime_error("The header is missing in the dimacs file.");
+
 		for(unsigned i=0; i<node_count; ++i)
 			if(!seen[i])
 				throw runtime_error("Position for node "+std::to_string(i)+" is missing");
diff --git a/src/convert_road_dimacs_graph.cpp b/src/convert_road_dimacs_graph.cpp
index 0d06d2b..03f75a7 100644
--- a/src/convert_road_dimacs_graph.cpp
+++ b/src/convert_road_dimacs_graph.cpp
@@ -80,6 +80,11 @@ int main(int argc, char*argv[]){
 			}
 		}
 
+		if(in.bad())
+			throw std::runtime_error("Can not read \""+dimacs_file+"\" completely.");
+		if(!was_header_read)
+			throw std::runtime_error("The header is missing in the dimacs file.");
+
 		if(next_arc != arc_count)
 			throw std::runtime_error("The arc count in the header ("+to_string(arc_count)+") does not correspond with the actual number of arcs ("+to_string(next_arc)+").");
 
diff --git a/src/encode_vector.cpp b/src/encode_vector.cpp
index d83a104..9f2a059 100644
--- a/src/encode_vector.cpp
+++ b/src/encode_vector.cpp
@@ -3,10 +3,15 @@
 #include <string>
 #include <iostream>
 #include <limits>
+#include <stdio.h>
 
 using namespace RoutingKit;
 using namespace std;
 
+void check_input(){
+	if(cin.bad() || ferror(stdin))
+		throw runtime_error("Can not read the standard input completely.");
+}
 
 template<class T>
 void convert_int_data(const string&output_vector_file){
@@ -20,6 +25,7 @@ void convert_int_data(const string&output_vector_file){
 			throw runtime_error("The number \""+line+"\" is too large, max is \""+to_string(numeric_limits<T>::max())+"\"");
 		v.push_back(x);
 	}
+	check_input();
 	save_vector(output_vector_file, v);
 }
 
@@ -30,6 +36,7 @@ void convert_float_data(const string&output_vector_file){
 	while(getline(cin, line)){
 		v.push_back(stold(line));
 	}
+	check_input();
 	save_vector(output_vector_file, v);
 }
 
@@ -39,6 +46,7 @@ void convert_uint64_data(const string&output_vector_file){
 	while(getline(cin, line)){
 		v.push_back(stoull(line));
 	}
+	check_input();
 	save_vector(output_vector_file, v);
 }
 
@@ -61,6 +69,7 @@ void convert_string_data(const string&output_vector_file){
 	while(getline(cin, line)){
 		v.push_back(unescape(line));
 	}
+	check_input();
 	save_vector(output_vector_file, v);
 }
 
diff --git a/src/show_path.cpp b/src/show_path.cpp
index 1872809..284b9ae 100644
--- a/src/show_path.cpp
+++ b/src/show_path.cpp
@@ -8,6 +8,7 @@
 #include <stdexcept>
 #include <vector>
 #include <iomanip>
+#include <stdio.h>
 
 using namespace RoutingKit;
 using namespace std;
@@ -70,6 +71,8 @@ int main(int argc, char*argv[]){
 			if(!cout)
 				throw runtime_error("Can not write to the standard output completely.");
 		}
+		if(cin.bad() || ferror(stdin) || !cin.eof())
+			throw runtime_error("Can not read the standard input completely.");
 	}catch(exception&err){
 		cerr << "Stopped on exception : " << err.what() << endl;
 	}
-- 
2.43.0


From 86ef152c3129b5ad2f9146f73613bcd14728991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 35/50] fix: tools must check that the vectors they load fit
 together

---
 src/compute_geographic_distance_weights.cpp |  2 ++
 src/compute_nested_dissection_order.cpp     | 14 ++++++++++++--
 src/export_road_dimacs_graph.cpp            |  6 +++++-
 src/generate_dijkstra_rank_test_queries.cpp |  2 ++
 src/graph_to_dot.cpp                        |  9 +++++++++
 src/graph_to_svg.cpp                        |  9 +++++++++
 src/randomly_permute_nodes.cpp              |  3 +++
 src/run_contraction_hierarchy_query.cpp     |  5 ++++-
 src/run_dijkstra.cpp                        |  9 +--------
 src/show_path.cpp                           |  7 +++++--
 src/verify.cpp                              |  2 ++
 11 files changed, 54 insertions(+), 14 deletions(-)

diff --git a/src/compute_geographic_distance_weights.cpp b/src/compute_geographic_distance_weights.cpp
index b137ad9..a16ee43 100644
--- a/src/compute_geographic_distance_weights.cpp
+++ b/src/compute_geographic_distance_weights.cpp
@@ -45,6 +45,8 @@ int main(int argc, char*argv[]){
 
 		cout << "Validity tests ... " << flush;
 		check_if_graph_is_valid(first_out, head);
+		if(latitude.size() != first_out.size()-1 || longitude.size() != first_out.size()-1)
+			throw runtime_error("The latitude and longitude vectors must be as long as the number of nodes.");
 		cout << "done" << endl;
 
 
diff --git a/src/compute_nested_dissection_order.cpp b/src/compute_nested_dissection_order.cpp
index e82de6f..2f0c54a 100644
--- a/src/compute_nested_dissection_order.cpp
+++ b/src/compute_nested_dissection_order.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/nested_dissection.h>
 #include <routingkit/timer.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <vector>
@@ -35,12 +36,21 @@ int main(int argc, char*argv[]){
 		cout << "Loading Graph ... " << flush;
 
 		auto first_out = load_vector<unsigned>(first_out_file);
-		unsigned node_count = first_out.size()-1;
-		auto tail = invert_inverse_vector(first_out);
 		auto head = load_vector<unsigned>(head_file);
 		auto latitude = load_vector<float>(latitude_file);
 		auto longitude = load_vector<float>(longitude_file);
 
+		if(first_out.empty() || first_out.front() != 0 || first_out.back() != head.size() || !is_sorted(first_out.begin(), first_out.end()))
+			throw runtime_error("The first out vector must be sorted, start with 0 and end with the number of arcs.");
+		for(auto x:head)
+			if(x >= first_out.size()-1)
+				throw runtime_error("The head vector contains an out-of-bounds node id.");
+		if(latitude.size() != first_out.size()-1 || longitude.size() != first_out.size()-1)
+			throw runtime_error("The latitude and longitude vectors must be as long as the number of nodes.");
+
+		unsigned node_count = first_out.size()-1;
+		auto tail = invert_inverse_vector(first_out);
+
 		cout << "done" << endl;
 
 		cout << "Compute order ... " << flush;
diff --git a/src/export_road_dimacs_graph.cpp b/src/export_road_dimacs_graph.cpp
index 1f13460..80dc8ed 100644
--- a/src/export_road_dimacs_graph.cpp
+++ b/src/export_road_dimacs_graph.cpp
@@ -37,10 +37,12 @@ int main(int argc, char*argv[]){
 		vector<unsigned>first_out = load_vector<unsigned>(in_first_out_file);
 		vector<unsigned>head = load_vector<unsigned>(in_head_file);
 		vector<unsigned>weight = load_vector<unsigned>(in_weight_file);
-		vector<unsigned>tail = invert_inverse_vector(first_out);
 		
 		cout << "done" << endl;
 
+		if(first_out.empty())
+			throw runtime_error("The first out vector must not be empty.");
+
 		const unsigned node_count = first_out.size()-1;
 		const unsigned arc_count = head.size();
 
@@ -55,6 +57,8 @@ int main(int argc, char*argv[]){
 		if(weight.size() != arc_count)
 			throw runtime_error("The weight vector must be as long as the number of arcs");
 
+		vector<unsigned>tail = invert_inverse_vector(first_out);
+
 
 		cout << "Saving graph ... " << flush;
 
diff --git a/src/generate_dijkstra_rank_test_queries.cpp b/src/generate_dijkstra_rank_test_queries.cpp
index 5af385f..65d13ee 100644
--- a/src/generate_dijkstra_rank_test_queries.cpp
+++ b/src/generate_dijkstra_rank_test_queries.cpp
@@ -49,6 +49,8 @@ int main(int argc, char*argv[]){
 
 		cout << "Validity tests ... " << flush;
 		check_if_graph_is_valid(first_out, head);
+		if(weight.size() != head.size())
+			throw runtime_error("The weight vector must be as long as the number of arcs.");
 		cout << "done" << endl;
 
 		auto tail = invert_inverse_vector(first_out);
diff --git a/src/graph_to_dot.cpp b/src/graph_to_dot.cpp
index e2aa6e0..eda3e44 100644
--- a/src/graph_to_dot.cpp
+++ b/src/graph_to_dot.cpp
@@ -2,6 +2,7 @@
 #include <routingkit/timer.h>
 #include <routingkit/contraction_hierarchy.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <vector>
@@ -35,6 +36,14 @@ int main(int argc, char*argv[]){
 
 		cout << "done" << endl;
 
+		if(first_out_arc.empty() || first_out_arc.front() != 0 || first_out_arc.back() != head.size() || !is_sorted(first_out_arc.begin(), first_out_arc.end()))
+			throw runtime_error("The first out vector must be sorted, start with 0 and end with the number of arcs.");
+		for(auto x:head)
+			if(x >= first_out_arc.size()-1)
+				throw runtime_error("The head vector contains an out-of-bounds node id.");
+		if(weight.size() != head.size())
+			throw runtime_error("The weight vector must be as long as the number of arcs.");
+
 		cout << "Writing dot ... " << flush;
 
 		std::ofstream out(dot_file);
diff --git a/src/graph_to_svg.cpp b/src/graph_to_svg.cpp
index 607fd2c..aca976a 100644
--- a/src/graph_to_svg.cpp
+++ b/src/graph_to_svg.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/contraction_hierarchy.h>
 #include <routingkit/min_max.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <vector>
@@ -39,6 +40,14 @@ int main(int argc, char*argv[]){
 		
 		cout << "done" << endl;
 
+		if(first_out_arc.empty() || first_out_arc.front() != 0 || first_out_arc.back() != head.size() || !is_sorted(first_out_arc.begin(), first_out_arc.end()))
+			throw runtime_error("The first out vector must be sorted, start with 0 and end with the number of arcs.");
+		for(auto x:head)
+			if(x >= first_out_arc.size()-1)
+				throw runtime_error("The head vector contains an out-of-bounds node id.");
+		if(latitude.size() != first_out_arc.size()-1 || longitude.size() != first_out_arc.size()-1)
+			throw runtime_error("The latitude and longitude vectors must be as long as the number of nodes.");
+
 		float min_latitude = min_element_of(latitude);
 		float max_latitude = max_element_of(latitude);
 		
diff --git a/src/randomly_permute_nodes.cpp b/src/randomly_permute_nodes.cpp
index d0e183c..fa7c8a3 100644
--- a/src/randomly_permute_nodes.cpp
+++ b/src/randomly_permute_nodes.cpp
@@ -41,6 +41,9 @@ int main(int argc, char*argv[]){
 
 		cout << "done" << endl;
 
+		if(first_out.empty())
+			throw runtime_error("The first out vector must not be empty.");
+
 		const unsigned node_count = first_out.size()-1;
 		const unsigned arc_count = head.size();
 
diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index ff3ff84..2103f40 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -42,6 +42,9 @@ int main(int argc, char*argv[]){
 
 		cout << "done" << endl;
 
+		if(source.size() != target.size())
+			throw runtime_error("The source and target vectors must be of the same length.");
+
 		const unsigned query_count = source.size();
 
 		cout << "Loaded " << query_count << " test queries" << endl;
@@ -67,7 +70,7 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 
 		cout << "max running time : " << time_max << "musec" << endl;
-		cout << "avg running time : " << time_sum/query_count << "musec" << endl;
+		cout << "avg running time : " << (query_count == 0 ? 0 : time_sum/query_count) << "musec" << endl;
 
 		save_vector(distance_file, distance);
 
diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 0115a6a..ce9c04f 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -49,15 +49,8 @@ int main(int argc, char*argv[]){
 
 		auto tail = invert_inverse_vector(first_out);
 
-		const unsigned node_count = first_out.size()-1;
 		const unsigned arc_count = head.size();
 
-		if(first_out.front() != 0)
-			throw runtime_error("The first element of first out must be 0.");
-		if(first_out.back() != arc_count)
-			throw runtime_error("The last element of first out must be the arc count.");
-		if(max_element_of(head) >= node_count)
-			throw runtime_error("The head vector contains an out-of-bounds node id.");
 		if(weight.size() != arc_count)
 			throw runtime_error("The weight vector must be as long as the number of arcs");
 
@@ -106,7 +99,7 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 
 		cout << "max running time : " << time_max << "musec" << endl;
-		cout << "avg running time : " << time_sum/query_count << "musec" << endl;
+		cout << "avg running time : " << (query_count == 0 ? 0 : time_sum/query_count) << "musec" << endl;
 
 		save_vector(distance_file, distance);
 
diff --git a/src/show_path.cpp b/src/show_path.cpp
index 284b9ae..4d0ff6c 100644
--- a/src/show_path.cpp
+++ b/src/show_path.cpp
@@ -33,13 +33,16 @@ int main(int argc, char*argv[]){
 		vector<float>latitude = load_vector<float>(latitude_file);
 		vector<float>longitude = load_vector<float>(longitude_file);
 
+		if(latitude.size() != ch.node_count() || longitude.size() != ch.node_count())
+			throw runtime_error("The latitude and longitude vectors must be as long as the number of nodes.");
+
 		ContractionHierarchyQuery ch_query(ch);		
 
 		unsigned source, target;
 		while(cin >> source >> target){
-			if(source > ch.node_count())
+			if(source >= ch.node_count())
 				throw runtime_error("Source out of bounds");
-			if(target > ch.node_count())
+			if(target >= ch.node_count())
 				throw runtime_error("Target out of bounds");
 
 			ch_query.reset().add_source(source).add_target(target).run();
diff --git a/src/verify.cpp b/src/verify.cpp
index 413b337..09ba142 100644
--- a/src/verify.cpp
+++ b/src/verify.cpp
@@ -6,6 +6,8 @@
 namespace RoutingKit{
 
 void check_if_graph_is_valid(const std::vector<unsigned>&first_out, const std::vector<unsigned>&head){
+	if(first_out.empty())
+		throw std::runtime_error("first_out must not be empty");
 	if(first_out.front() != 0)
 		throw std::runtime_error("first_out[0] must be 0");
 	if(first_out.back() != head.size())
-- 
2.43.0


From 35a4364705ff218bb1a067db4d615fbfb543fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 36/50] fix: osm_extract must not overflow travel times or read
 an arc of a graph without arcs

---
 src/osm_extract.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/osm_extract.cpp b/src/osm_extract.cpp
index 3a46833..fe519a6 100644
--- a/src/osm_extract.cpp
+++ b/src/osm_extract.cpp
@@ -6,6 +6,7 @@
 #include <routingkit/id_mapper.h>
 
 
+#include <algorithm>
 #include <iostream>
 #include <string>
 #include <exception>
@@ -93,14 +94,16 @@ int main(int argc, char*argv[]){
 
 		unsigned arc_count  = routing_graph.arc_count();
 
-		std::vector<uint32_t>travel_time = routing_graph.geo_distance;
+		std::vector<uint32_t>travel_time(arc_count);
 		for(unsigned a=0; a<arc_count; ++a){
-			travel_time[a] *= 18000;
-			travel_time[a] /= way_speed[routing_graph.way[a]];
-			travel_time[a] /= 5;
+			uint64_t x = routing_graph.geo_distance[a];
+			x *= 18000;
+			x /= way_speed[routing_graph.way[a]];
+			x /= 5;
+			travel_time[a] = std::min<uint64_t>(x, inf_weight);
 		}
 
-		{
+		if(arc_count != 0){
 			unsigned max_arc = invalid_id;
 			unsigned max_travel_time = 0;
 			for(unsigned a=0; a<arc_count; ++a){
-- 
2.43.0


From 6272b4fff19313f6032a0cba0f05e7bc6f033dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 37/50] fix: reading a file must not fail if a signal
 interrupts it

---
 src/file_data_source.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 0ad4ed9..5debb0a 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -83,7 +83,10 @@ unsigned long long FileDataSource::size()const{
 
 namespace{
 	unsigned long long my_read(int file_descriptor, char*buffer, unsigned long long to_read){
-		ssize_t s = ::read(file_descriptor, buffer, to_read);
+		ssize_t s;
+		do{
+			s = ::read(file_descriptor, buffer, to_read);
+		}while(s == -1 && errno == EINTR);
 		if(s < 0){
 			int error = errno;
 			throw std::runtime_error(std::string("Could not read from file. The errno is ")+std::to_string(error)+". strerror(errno) says the following : "+strerror(error));
-- 
2.43.0


From 95e258cde599e31190a0e0bff2646dae95e41173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 38/50] fix: FileDataSource::size must not throw on success and
 move assignment must close the old file

---
 src/file_data_source.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 5debb0a..235c75f 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -37,6 +37,9 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
+	if(this == &o)
+		return *this;
+	close();
 	file_descriptor = o.file_descriptor;
 	o.file_descriptor = -1;
 	return *this;
@@ -73,7 +76,7 @@ unsigned long long FileDataSource::size()const{
 		return 0;
 	else{
 		struct ::stat buf;
-		if(!::fstat(file_descriptor, &buf)){
+		if(::fstat(file_descriptor, &buf)){
 			int error = errno;
 			throw std::runtime_error(std::string("Could not determine the size of a file open for reading. The errno is ")+std::to_string(error)+". strerror(errno) says the following : "+strerror(error));
 		}
@@ -117,6 +120,9 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
+	if(this == &o)
+		return *this;
+	close();
 	file_descriptor = o.file_descriptor;
 	o.file_descriptor = nullptr;
 	return *this;
-- 
2.43.0


From e6b97e0de71bf08a19042e9ff0baa808dd0625cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:28 +0000
Subject: [PATCH 39/50] fix: report relations with more member roles or types
 than member IDs

---
 src/osm_decoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index d3fafb9..03407a1 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -648,6 +648,10 @@ namespace {
 						throw std::runtime_error("PBF error: Unknown relation type.");
 					member_list.push_back({member_type, member_id, role});
 				}
+				if(member_role_begin != member_role_end)
+					throw std::runtime_error("PBF error: relation member role array has a different length than the member ID array.");
+				if(member_type_begin != member_type_end)
+					throw std::runtime_error("PBF error: relation member type array has a different length than the member ID array.");
 				relation_callback(osm_relation_id, member_list, tag_map);
 			};
 
-- 
2.43.0


From d2dc1fe4c0a66ab2efb737b7b34f8be15f171870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:28 +0000
Subject: [PATCH 40/50] fix: do not truncate string numbers of tags before
 checking their range

---
 src/osm_decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 03407a1..63dd990 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -280,8 +280,8 @@ namespace {
 		std::vector<uint64_t>node_list;
 
 		std::vector<const char*>string_table;
-		std::vector<uint32_t>key_list;
-		std::vector<uint32_t>value_list;
+		std::vector<uint64_t>key_list;
+		std::vector<uint64_t>value_list;
 
 		std::vector<std::pair<const char*, const char*>>group_list;
 
-- 
2.43.0


From 7a7d20d34e000114c6f964c021981e75f7e31ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:28 +0000
Subject: [PATCH 41/50] fix: report nodes without coordinates instead of
 placing them at 0,0

---
 src/osm_decoder.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 63dd990..733b4ed 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -346,6 +346,7 @@ namespace {
 			auto decode_sparse_node = [&](const char*begin, const char*end){
 				uint64_t osm_node_id = (uint64_t)-1;
 				double latitude = 0.0, longitude = 0.0;
+				bool has_latitude = false, has_longitude = false;
 
 				const char
 					*key_begin = nullptr, *key_end = nullptr,
@@ -356,10 +357,13 @@ namespace {
 					[&](uint64_t key_id, uint64_t num){
 						if(key_id == 1)
 							osm_node_id = zigzag_convert_uint64_to_int64(num);
-						else if(key_id == 8)
+						else if(key_id == 8){
 							latitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
-						else if(key_id == 9)
+							has_latitude = true;
+						}else if(key_id == 9){
 							longitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+							has_longitude = true;
+						}
 					},
 					[&](uint64_t key_id, double num){},
 					[&](uint64_t key_id, const char*begin, const char*end){
@@ -375,6 +379,8 @@ namespace {
 
 				if(osm_node_id == (uint64_t)-1)
 					throw std::runtime_error("PBF error: way is missing its OSM ID.");
+				if(!has_latitude || !has_longitude)
+					throw std::runtime_error("PBF error: node is missing its latitude or longitude.");
 
 				key_list.clear();
 				value_list.clear();
-- 
2.43.0


From 4deae0dc327b5084ba26272bafb8401a35572803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:28 +0000
Subject: [PATCH 42/50] fix: report blocks without a type instead of skipping
 them

---
 src/osm_decoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 733b4ed..c8437db 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -126,6 +126,7 @@ namespace{
 
 
 					char block_type[16] = "";
+					bool has_block_type = false;
 
 					const char*buffer = reader.read_or_throw(header_size);
 					decode_protobuf_message_with_callbacks(
@@ -142,12 +143,15 @@ namespace{
 									len = sizeof(block_type)-1;
 								memcpy(block_type, str_begin, len);
 								block_type[len] = '\0';
+								has_block_type = true;
 							}
 						}
 					);
 
 					if(data_size == (uint32_t)-1)
 						throw std::runtime_error("Cannot parse OSM blob header because it is missing the data size");
+					if(!has_block_type)
+						throw std::runtime_error("Cannot parse OSM blob header because it is missing the block type");
 
 					if(!strcmp(block_type, "OSMData")){
 						status |= is_header_info_available_bit | was_blob_read_bit;
-- 
2.43.0


From fd3dc3bbf5b713e2c1a315b74c16e110f1a6e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:59 +0000
Subject: [PATCH 43/50] fix: tag maps with 65536 or more tags lose tags

---
 include/routingkit/tag_map.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/routingkit/tag_map.h b/include/routingkit/tag_map.h
index 2f1acc3..3f3bfb7 100644
--- a/include/routingkit/tag_map.h
+++ b/include/routingkit/tag_map.h
@@ -7,6 +7,7 @@
 
 #include <vector>
 #include <string.h>
+#include <stdint.h>
 
 namespace RoutingKit{
 
@@ -52,8 +53,8 @@ public:
 
 	void clear(){
 		for(auto x:hash_element_list){
-			entry_begin[x>>16] = 0;
-			entry_end[x>>16] = 0;
+			entry_begin[x>>32] = 0;
+			entry_end[x>>32] = 0;
 		}
 		hash_element_list.clear();
 		entry.clear();
@@ -66,15 +67,15 @@ public:
 
 		hash_element_list.resize(key_value_count);
 		for(unsigned i=0; i<key_value_count; ++i)
-			hash_element_list[i] = (compute_hash(get_key(i))<<16) | i;
+			hash_element_list[i] = (static_cast<uint64_t>(compute_hash(get_key(i)))<<32) | i;
 		
 		std::sort(hash_element_list.begin(), hash_element_list.end());
 
 		entry.resize(key_value_count);
 		unsigned prev_hash = hash_count;
 		for(unsigned i=0; i<key_value_count; ++i){
-			unsigned hash = hash_element_list[i] >> 16;
-			unsigned j = hash_element_list[i] & 0xFFFFu;
+			unsigned hash = hash_element_list[i] >> 32;
+			unsigned j = hash_element_list[i] & 0xFFFFFFFFu;
 			entry[i].key = get_key(j);
 			entry[i].value = get_value(j);
 
@@ -118,7 +119,7 @@ public:
 	}
 
 private:
-	std::vector<unsigned>hash_element_list;
+	std::vector<uint64_t>hash_element_list;
 	std::vector<Entry>entry;
 	std::vector<unsigned>entry_begin, entry_end;
 };
-- 
2.43.0


From 1cabff98f3c7a4ddcf130878181a36ec7944cd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:46 +0000
Subject: [PATCH 44/50] fix: a CCH query reset to a metric of another CCH at
 the same address used the wrong elimination tree

---
 src/customizable_contraction_hierarchy.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 78c0cb1..b32d870 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1966,13 +1966,9 @@ CustomizableContractionHierarchyQuery& CustomizableContractionHierarchyQuery::re
 }
 
 CustomizableContractionHierarchyQuery& CustomizableContractionHierarchyQuery::reset(const CustomizableContractionHierarchyMetric&metric){
-	if(this->cch == metric.cch) {
-		this->metric = &metric;
-		reset();
-	} else {
-		*this = CustomizableContractionHierarchyQuery(metric);
-	}
-	state = query_state_initialized;
+	// The CCH used so far may be gone, and the new one may have taken its place in memory.
+	// The old search spaces can thus not be cleaned up using an elimination tree.
+	*this = CustomizableContractionHierarchyQuery(metric);
 	return *this;
 }
 
-- 
2.43.0


From 4e5db28597381615149ff934794f96ba9195e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:46 +0000
Subject: [PATCH 45/50] fix: uncompressed PBF blocks without the optional
 raw_size were refused

---
 src/osm_decoder.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index c8437db..dbb3bb0 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -220,8 +220,12 @@ namespace{
 					throw std::runtime_error("PBF error: Blob must not contain both compressed and uncompressed data");
 				if(uncompressed_begin == nullptr && compressed_begin == nullptr)
 					throw std::runtime_error("PBF error: Blob contains neither compressed nor uncompressed data");
-				if(uncompressed_data_size == (uint64_t)-1)
-					throw std::runtime_error("PBF error: Blob does not contain the size of the uncompressed data");
+				if(uncompressed_data_size == (uint64_t)-1){
+					// Only compressed data needs to come with its uncompressed size.
+					if(uncompressed_begin == nullptr)
+						throw std::runtime_error("PBF error: Blob does not contain the size of the uncompressed data");
+					uncompressed_data_size = uncompressed_end - uncompressed_begin;
+				}
 				if(uncompressed_begin){
 					if(uncompressed_data_size > how_much_to_read-4)
 						throw std::runtime_error("PBF error: Blob is too large. It is "+std::to_string(uncompressed_data_size) + " but may be at most "+std::to_string(how_much_to_read-4));
-- 
2.43.0


From 3315ca59518a016773d45310d6905f4918d9e2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:10 +0000
Subject: [PATCH 46/50] fix: closed arcs and paths longer than inf_weight broke
 the construction of contraction hierarchies

Arcs of weight inf_weight and shortcuts of inf_weight or more were kept, so
sums of weights overflowed: the construction crashed or added shortcuts that
are shorter than the paths they stand for.
---
 src/contraction_hierarchy.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 90572a4..acfc0bb 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -95,7 +95,7 @@ namespace{
 				unsigned w = weight[a];
 
 
-				if(x != y){
+				if(x != y && w < inf_weight){
 					out_[x].push_back({y, w, 1, invalid_id});
 					in_[y].push_back({x, w, 1, invalid_id});
 				}
@@ -330,6 +330,10 @@ namespace{
 
 				unsigned next_node_distance = distance_to_popped_node + graph_out(popped_node, out_arc).weight;
 
+				// All arcs are shorter than inf_weight, therefore this check also avoids that distances overflow
+				if(next_node_distance >= inf_weight)
+					continue;
+
 				if(was_forward_pushed.is_set(next_node)){
 					if(next_node_distance < forward_tentative_distance[next_node]){
 						forward_queue.decrease_key({next_node, next_node_distance});
@@ -535,13 +539,9 @@ namespace{
 			shorter_path_test.pin_source(in_node, node);
 			for(unsigned out_arc = 0; out_arc < graph.out_deg(node); ++out_arc){
 				unsigned out_node = graph.out(node, out_arc).node;
-				if(in_node != out_node){
-					if(
-						!shorter_path_test.does_shorter_or_equal_path_to_target_exist(
-							out_node,
-							graph.in(node, in_arc).weight + graph.out(node, out_arc).weight
-						)
-					){
+				unsigned shortcut_weight = graph.in(node, in_arc).weight + graph.out(node, out_arc).weight;
+				if(in_node != out_node && shortcut_weight < inf_weight){
+					if(!shorter_path_test.does_shorter_or_equal_path_to_target_exist(out_node, shortcut_weight)){
 						++added_arc_count;
 						added_hop_count += graph.in(node, in_arc).hop_length;
 						added_hop_count += graph.out(node, out_arc).hop_length;
@@ -569,16 +569,12 @@ namespace{
 			shorter_path_test.pin_source(in_node, node_being_contracted);
 			for(unsigned out_arc = 0; out_arc < graph.out_deg(node_being_contracted); ++out_arc){
 				unsigned out_node = graph.out(node_being_contracted, out_arc).node;
-				if(in_node != out_node){
-					if(
-						!shorter_path_test.does_shorter_or_equal_path_to_target_exist(
-							out_node,
-							graph.in(node_being_contracted, in_arc).weight + graph.out(node_being_contracted, out_arc).weight
-						)
-					){
+				unsigned shortcut_weight = graph.in(node_being_contracted, in_arc).weight + graph.out(node_being_contracted, out_arc).weight;
+				if(in_node != out_node && shortcut_weight < inf_weight){
+					if(!shorter_path_test.does_shorter_or_equal_path_to_target_exist(out_node, shortcut_weight)){
 						graph.add_arc_or_reduce_arc_weight(
 							in_node, node_being_contracted, out_node,
-							graph.in(node_being_contracted, in_arc).weight     + graph.out(node_being_contracted, out_arc).weight,
+							shortcut_weight,
 							graph.in(node_being_contracted, in_arc).hop_length + graph.out(node_being_contracted, out_arc).hop_length
 						);
 					}
-- 
2.43.0


From ef9017dbc5308c2a523719f1cc90987a4f0365e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:40 +0000
Subject: [PATCH 47/50] fix: the fallback for aligned_alloc crashed when memory
 ran out

---
 src/bit_vector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index 2759703..7f6f52b 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -26,6 +26,8 @@ namespace RoutingKit{
 #ifdef ROUTING_KIT_NO_ALIGNED_ALLOC
 void*aligned_alloc(uint8_t alignment, uint64_t size){
 	uint64_t potentially_unaligned_buffer = (uint64_t)malloc(size+alignment);
+	if(potentially_unaligned_buffer == 0)
+		return nullptr;
 	uint64_t aligned_buffer = ((potentially_unaligned_buffer + alignment)/alignment) * alignment;
 	uint8_t*buffer = (uint8_t*)aligned_buffer;
 	*(buffer-1) = aligned_buffer - potentially_unaligned_buffer;
-- 
2.43.0


From 538b0a9b1e09671e275eb982cafe772d1c419132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:19 +0000
Subject: [PATCH 48/50] fix: tools accessed memory out of bounds for unsorted
 first out vectors and queries with node ids that do not exist

---
 src/export_road_dimacs_graph.cpp        | 3 +++
 src/randomly_permute_nodes.cpp          | 3 +++
 src/run_contraction_hierarchy_query.cpp | 3 +++
 src/run_dijkstra.cpp                    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/export_road_dimacs_graph.cpp b/src/export_road_dimacs_graph.cpp
index 80dc8ed..4cd8f10 100644
--- a/src/export_road_dimacs_graph.cpp
+++ b/src/export_road_dimacs_graph.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/sort.h>
 #include <routingkit/inverse_vector.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <random>
@@ -50,6 +51,8 @@ int main(int argc, char*argv[]){
 			throw runtime_error("The first element of first out must be 0.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
+		if(!is_sorted(first_out.begin(), first_out.end()))
+			throw runtime_error("The first out vector must be sorted.");
 		if(head.empty())
 			throw runtime_error("The head vector must not be empty.");
 		if(max_element_of(head) >= node_count)
diff --git a/src/randomly_permute_nodes.cpp b/src/randomly_permute_nodes.cpp
index fa7c8a3..8187663 100644
--- a/src/randomly_permute_nodes.cpp
+++ b/src/randomly_permute_nodes.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/sort.h>
 #include <routingkit/inverse_vector.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <random>
@@ -51,6 +52,8 @@ int main(int argc, char*argv[]){
 			throw runtime_error("The first element of first out must be 0.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
+		if(!is_sorted(first_out.begin(), first_out.end()))
+			throw runtime_error("The first out vector must be sorted.");
 		if(head.empty())
 			throw runtime_error("The head vector must not be empty.");
 		if(max_element_of(head) >= node_count)
diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index 2103f40..a6fd6ef 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -44,6 +44,9 @@ int main(int argc, char*argv[]){
 
 		if(source.size() != target.size())
 			throw runtime_error("The source and target vectors must be of the same length.");
+		for(unsigned i=0; i<source.size(); ++i)
+			if(source[i] >= ch.node_count() || target[i] >= ch.node_count())
+				throw runtime_error("The source or target vector contains an out-of-bounds node id.");
 
 		const unsigned query_count = source.size();
 
diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index ce9c04f..2704f02 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -65,6 +65,9 @@ int main(int argc, char*argv[]){
 
 		if(source.size() != target.size())
 			throw runtime_error("The source and target vectors must be of the same length.");
+		for(unsigned i=0; i<source.size(); ++i)
+			if(source[i] >= first_out.size()-1 || target[i] >= first_out.size()-1)
+				throw runtime_error("The source or target vector contains an out-of-bounds node id.");
 			
 
 		unsigned query_count = source.size();
-- 
2.43.0


From 3e7b80f00802768050536a9946e0674946f14e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:19 +0000
Subject: [PATCH 49/50] fix: generators of random nodes and times chose from an
 empty range

---
 src/generate_dijkstra_rank_test_queries.cpp | 2 ++
 src/generate_random_node_list.cpp           | 3 +++
 src/generate_random_source_times.cpp        | 3 +++
 src/generate_test_queries.cpp               | 3 +++
 4 files changed, 11 insertions(+)

diff --git a/src/generate_dijkstra_rank_test_queries.cpp b/src/generate_dijkstra_rank_test_queries.cpp
index 65d13ee..fe0b030 100644
--- a/src/generate_dijkstra_rank_test_queries.cpp
+++ b/src/generate_dijkstra_rank_test_queries.cpp
@@ -56,6 +56,8 @@ int main(int argc, char*argv[]){
 		auto tail = invert_inverse_vector(first_out);
 
 		unsigned node_count = first_out.size()-1;
+		if(node_count == 0 && source_node_count != 0)
+			throw runtime_error("There are no nodes to choose from.");
 
 		vector<unsigned>source;
 		vector<unsigned>target;
diff --git a/src/generate_random_node_list.cpp b/src/generate_random_node_list.cpp
index 06673c9..5217d19 100644
--- a/src/generate_random_node_list.cpp
+++ b/src/generate_random_node_list.cpp
@@ -32,6 +32,9 @@ int main(int argc, char*argv[]){
 			file = argv[4];
 		}
 
+		if(node_count == 0 && query_count != 0)
+			throw runtime_error("There are no nodes to choose from.");
+
 		cout << "Generating ... " << flush;
 
 		default_random_engine gen(random_seed);
diff --git a/src/generate_random_source_times.cpp b/src/generate_random_source_times.cpp
index a65e009..7b71ba0 100644
--- a/src/generate_random_source_times.cpp
+++ b/src/generate_random_source_times.cpp
@@ -32,6 +32,9 @@ int main(int argc, char*argv[]){
 			source_time_file = argv[4];
 		}
 
+		if(period == 0 && time_count != 0)
+			throw runtime_error("The period must not be zero.");
+
 		cout << "Generating ... " << flush;
 
 		default_random_engine gen(random_seed);
diff --git a/src/generate_test_queries.cpp b/src/generate_test_queries.cpp
index 8883798..694bd75 100644
--- a/src/generate_test_queries.cpp
+++ b/src/generate_test_queries.cpp
@@ -28,6 +28,9 @@ int main(int argc, char*argv[]){
 			target_file = argv[5];
 		}
 
+		if(node_count == 0 && query_count != 0)
+			throw runtime_error("There are no nodes to choose from.");
+
 		vector<unsigned>source(query_count);
 		vector<unsigned>target(query_count);
 		
-- 
2.43.0


From 1652b406dd6a5c0bf7944aa630a3d8d81d662fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:47 +0000
Subject: [PATCH 50/50] fix: compare the features in an OSM PBF header without
 reading past the end of their names

---
 src/osm_decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index dbb3bb0..f5f9df1 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -173,10 +173,10 @@ namespace{
 							[&](uint64_t key_id, double num){},
 							[&](uint64_t key_id, const char*str_begin, const char*str_end){
 								if(key_id == 4){ // must support
-									if(!std::equal(str_begin, str_end, "DenseNodes"))
+									if(std::string(str_begin, str_end) != "DenseNodes")
 										throw std::runtime_error("Required OSM PBF feature \""+std::string(str_begin, str_end)+"\" is unknown");
 								}else if(key_id == 5){ // may exploit
-									if(std::equal(str_begin, str_end, "Sort.Type_then_ID"))
+									if(std::string(str_begin, str_end) == "Sort.Type_then_ID")
 										is_ordered = true;
 								}
 							}
-- 
2.43.0

