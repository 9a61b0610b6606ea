From 90f4c3a80be86a88a5fb099dee06b3c7b5f8cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:46 +0000
Subject: [PATCH 01/23] fix: reject NSEC/NSEC3 type bitmap windows longer than
 32 bytes

A window length above 32 spilled into the following windows and, for the last
ones, paniced when slicing past the end of the mask.
---
 src/ser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index dfd8993..da599bb 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -66,6 +66,8 @@ pub(crate) fn read_nsec_types_bitmap(inp: &mut &[u8]) -> Result<[u8; 8192], ()>
 		let block = *inp.get(0).ok_or(())?;
 		let len = *inp.get(1).ok_or(())?;
 		*inp = &inp[2..];
+		// RFC 4034 section 4.1.2 limits each window block's bitmap to 32 bytes.
+		if len > 32 { return Err(()); }
 		if inp.len() < len as usize { return Err(()); }
 		res[block as usize * 32..block as usize * 32 + len as usize]
 			.copy_from_slice(&inp[..len as usize]);
-- 
2.43.0


From 9b944d919bc2c60ebba4e19b9763dccb065843ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:48 +0000
Subject: [PATCH 02/23] fix: refuse trailing RDATA in CNAME, DNAME and NS
 records

Bytes after the name hit a debug assertion (and were dropped in release).
---
 src/rr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index fbe8f65..e103d2b 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -382,7 +382,7 @@ impl StaticRecord for CName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -413,7 +413,7 @@ impl StaticRecord for DName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -858,7 +858,7 @@ impl StaticRecord for NS {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-- 
2.43.0


From 184931ef1c84d73fc098d3b18df968e10f78d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:50 +0000
Subject: [PATCH 03/23] fix: count the length byte of an empty TXT record

An empty TXT record wrote a data length of zero followed by one byte of data.
---
 src/rr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index e103d2b..769419b 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -296,7 +296,8 @@ impl StaticRecord for Txt {
 		Ok(Txt { name, data: parsed_data })
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-		let len = (self.data.len() + (self.data.len() + 254) / 255) as u16;
+		// Even an empty record has one (empty) character-string.
+		let len = (self.data.len() + cmp::max(1, (self.data.len() + 254) / 255)) as u16;
 		out.extend_from_slice(&len.to_be_bytes());
 
 		let mut data_write = &self.data[..];
-- 
2.43.0


From 2a65c3f1d3fb8f1b57c992e63d4d957c6d119bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 04/23] fix: refuse names with empty labels and wire labels
 containing a dot

Both made two different wire names share one Name (or a Name encode with an
early terminator).
---
 src/rr.rs  | 6 ++++--
 src/ser.rs | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 769419b..c8180c6 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -61,8 +61,10 @@ impl TryFrom<String> for Name {
 		if *s.as_bytes().last().unwrap_or(&0) != b"."[0] { return Err(()); }
 		if s.len() > 255 { return Err(()); }
 		if s.chars().any(|c| !c.is_ascii_graphic() || c == '"') { return Err(()); }
-		for label in s.split(".") {
-			if label.len() > 63 { return Err(()); }
+		if s != "." {
+			for label in s[..s.len() - 1].split(".") {
+				if label.is_empty() || label.len() > 63 { return Err(()); }
+			}
 		}
 
 		Ok(Name(s.to_ascii_lowercase()))
diff --git a/src/ser.rs b/src/ser.rs
index da599bb..ae17fba 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -89,7 +89,10 @@ fn do_read_wire_packet_labels(inp: &mut &[u8], wire_packet: &[u8], name: &mut St
 			break;
 		}
 		if inp.len() <= len { return Err(()); }
-		*name += core::str::from_utf8(&inp[..len]).map_err(|_| ())?;
+		let label = core::str::from_utf8(&inp[..len]).map_err(|_| ())?;
+		// We have no way to represent a "." inside of a label.
+		if label.contains('.') { return Err(()); }
+		*name += label;
 		*name += ".";
 		*inp = &inp[len..];
 		if name.len() > 255 { return Err(()); }
-- 
2.43.0


From b8d160135cc614e4cdbc510326167ee8c4547bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:53 +0000
Subject: [PATCH 05/23] fix: make the JSON rendering of RRSIG records valid
 JSON

A colon was missing and the record was tagged as a DS.
---
 src/rr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index c8180c6..d6b7f93 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -593,7 +593,7 @@ impl StaticRecord for RRSig {
 	fn json(&self) -> String {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
-			"{{\"type\":\"ds\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\"{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
+			"{{\"type\":\"rrsig\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\":{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
 			self.name.0, self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
-- 
2.43.0


From 9b0f7a992946a6cae33a3e89f3398ddd1833f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:55 +0000
Subject: [PATCH 06/23] fix: refuse backslashes in names

Names are placed in JSON strings without escaping, which is why quotes are
already refused.
---
 src/rr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index d6b7f93..7eb6973 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -60,7 +60,7 @@ impl TryFrom<String> for Name {
 		if s.is_empty() { return Err(()); }
 		if *s.as_bytes().last().unwrap_or(&0) != b"."[0] { return Err(()); }
 		if s.len() > 255 { return Err(()); }
-		if s.chars().any(|c| !c.is_ascii_graphic() || c == '"') { return Err(()); }
+		if s.chars().any(|c| !c.is_ascii_graphic() || c == '"' || c == '\\') { return Err(()); }
 		if s != "." {
 			for label in s[..s.len() - 1].split(".") {
 				if label.is_empty() || label.len() > 63 { return Err(()); }
-- 
2.43.0


From 373e2d31ada1a29ba7038c7ed33cfbf4e478918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 07/23] fix: don't panic when extending a QueryBuf beyond
 u16::MAX

The slice lengths no longer matched once the length saturated (or was
truncated), despite the documentation.
---
 src/query.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 1e02e2b..bff13c9 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -48,7 +48,9 @@ impl QueryBuf {
 	/// If the total length of this buffer exceeds [`u16::MAX`] after appending, the buffer's state
 	/// is undefined, however pushing data beyond [`u16::MAX`] will not panic.
 	pub fn extend_from_slice(&mut self, sl: &[u8]) {
-		let new_len = self.len.saturating_add(sl.len() as u16);
+		let new_len = self.len.saturating_add(cmp::min(sl.len(), u16::MAX as usize) as u16);
+		// If we'd exceed `u16::MAX` simply drop whatever doesn't fit.
+		let sl = &sl[..(new_len - self.len) as usize];
 		let was_heap = self.len > STACK_BUF_LIMIT;
 		let is_heap = new_len > STACK_BUF_LIMIT;
 		if was_heap != is_heap {
-- 
2.43.0


From 3a1ddb77e66b462c129f676cd9ee327122fc90ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:58 +0000
Subject: [PATCH 08/23] fix: check all four RCODE bits of responses

---
 src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index bff13c9..363006c 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -130,7 +130,7 @@ fn handle_response(resp: &[u8], proof: &mut Vec<u8>, rrsig_key_names: &mut Vec<N
 	if flags & 0b1000_0000_0000_0000 == 0 {
 		return Err(());
 	}
-	if flags & 0b0111_1010_0000_0111 != 0 {
+	if flags & 0b0111_1010_0000_1111 != 0 {
 		return Err(());
 	}
 	if flags & 0b10_0000 == 0 {
-- 
2.43.0


From b7908b48ae5f3ad24d03b1f08bc93e8a5dc9ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:29 +0000
Subject: [PATCH 09/23] fix: only let zones sign for names below them at a
 label boundary

notexample.com. ends with example.com. but isn't a part of it.
---
 src/validation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index c7f0450..3a8253b 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -279,6 +279,15 @@ pub struct VerifiedRRStream<'a> {
 	pub max_cache_ttl: u32,
 }
 
+/// Checks if the given name is equal to, or a subdomain of, the given zone.
+fn name_in_zone(name: &str, zone: &str) -> bool {
+	if zone == "." { return true; }
+	match name.strip_suffix(zone) {
+		Some(prefix) => prefix.is_empty() || prefix.ends_with('.'),
+		None => false,
+	}
+}
+
 fn resolve_time(time: u32) -> u64 {
 	// RFC 2065 was published in January 1997, so we arbitrarily use that as a cutoff and assume
 	// any timestamps before then are actually past 2106 instead.
@@ -386,7 +395,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
 			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
 		{
-			if !rrsig.name.ends_with(zone) { return Err(ValidationError::Invalid); }
+			if !name_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }
 			let signed_records = inp.iter()
 				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);
 			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
-- 
2.43.0


From 5c10dc6d2ee7593f14b970a5c8faa4ca34b4cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:31 +0000
Subject: [PATCH 10/23] fix: only accept denial records from the zone which
 signed the wildcard

A child zone's (or, with the name only being compared as a string, an entirely
different zone's) NSEC/NSEC3 records say nothing about the names in its parent.
---
 src/validation.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 3a8253b..e06c33a 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -360,6 +360,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	let mut zone = ".";
 	let mut res = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
+	// NSEC/NSEC3 records, and the zone which signed them.
+	let mut denial_records: Vec<(&'a RR, &'a Name)> = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
 	let mut latest_inception = 0;
 	let mut earliest_expiry = u64::MAX;
@@ -440,6 +442,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
 					}
 					for record in signed_records {
+						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
+							denial_records.push((record, &rrsig.key_name));
+						}
 						if !res.contains(&record) { res.push(record); }
 					}
 				},
@@ -453,22 +458,23 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	// First sort the proofs we're looking for so that the retains below avoid shifting.
 	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
 	'proof_search_loop: while let Some((name, zone, ty)) = rrs_needing_non_existence_proofs.pop() {
-		let nsec_search = res.iter()
-			.filter_map(|rr| if let RR::NSec(nsec) = rr { Some(nsec) } else { None })
-			.filter(|nsec| nsec.name.ends_with(zone.as_str()));
+		// Only records signed by the same zone as the wildcard can prove anything about it.
+		let nsec_search = denial_records.iter()
+			.filter(|(_, signer)| *signer == zone)
+			.filter_map(|(rr, _)| if let RR::NSec(nsec) = rr { Some(nsec) } else { None });
 		for nsec in nsec_search {
 			let name_matches = nsec.name.as_str() == name;
 			let name_contained = nsec_ord(&nsec.name,  &name) != Ordering::Greater &&
 				nsec_ord(&nsec.next_name, name) == Ordering::Greater;
 			if (name_matches && !nsec.types.contains_type(ty)) || name_contained {
 				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (name_matches && nsec.types.contains_type(*t)));
+					.retain(|(n, z, t)| *n != name || *z != zone || (name_matches && nsec.types.contains_type(*t)));
 				continue 'proof_search_loop;
 			}
 		}
-		let nsec3_search = res.iter()
-			.filter_map(|rr| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None })
-			.filter(|nsec3| nsec3.name.ends_with(zone.as_str()));
+		let nsec3_search = denial_records.iter()
+			.filter(|(_, signer)| *signer == zone)
+			.filter_map(|(rr, _)| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None });
 
 		// Because we will only ever have two entries, a Vec is simpler than a map here.
 		let mut nsec3params_to_name_hash = Vec::new();
@@ -526,7 +532,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				&start_hash[..] <= name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
 			if (hash_matches && !nsec3.types.contains_type(ty)) || hash_contained {
 				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (hash_matches && nsec3.types.contains_type(*t)));
+					.retain(|(n, z, t)| *n != name || *z != zone || (hash_matches && nsec3.types.contains_type(*t)));
 				continue 'proof_search_loop;
 			}
 		}
-- 
2.43.0


From 142b3ab9626bd0da341e4483b72ac766f138e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:58 +0000
Subject: [PATCH 11/23] fix: require wildcard denial proofs to show that the
 closer name doesn't exist

Accepting an NSEC/NSEC3 for exactly the closer name which lacks the type allowed
a wildcard record to be replayed at names which exist (or below them), and so
did an NSEC whose next name is below the closer name (making the latter an
empty non-terminal).
---
 src/validation.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index e06c33a..24a168d 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -330,7 +330,7 @@ fn nsec_ord(a: &str, b: &str) -> Ordering {
 		}
 	}
 }
-fn nsec_ord_extra<T, U>(a: &(&str, T, U), b: &(&str, T, U)) -> Ordering {
+fn nsec_ord_extra<T>(a: &(&str, T), b: &(&str, T)) -> Ordering {
 	nsec_ord(a.0, b.0)
 }
 
@@ -439,7 +439,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						// a.b.c.
 						let proof_name = rrsig.name.trailing_n_labels(rrsig.labels + 1)
 							.ok_or(ValidationError::Invalid)?;
-						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
+						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
 					}
 					for record in signed_records {
 						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
@@ -457,18 +457,20 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 
 	// First sort the proofs we're looking for so that the retains below avoid shifting.
 	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
-	'proof_search_loop: while let Some((name, zone, ty)) = rrs_needing_non_existence_proofs.pop() {
+	'proof_search_loop: while let Some((name, zone)) = rrs_needing_non_existence_proofs.pop() {
 		// Only records signed by the same zone as the wildcard can prove anything about it.
 		let nsec_search = denial_records.iter()
 			.filter(|(_, signer)| *signer == zone)
 			.filter_map(|(rr, _)| if let RR::NSec(nsec) = rr { Some(nsec) } else { None });
 		for nsec in nsec_search {
-			let name_matches = nsec.name.as_str() == name;
-			let name_contained = nsec_ord(&nsec.name,  &name) != Ordering::Greater &&
-				nsec_ord(&nsec.next_name, name) == Ordering::Greater;
-			if (name_matches && !nsec.types.contains_type(ty)) || name_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, z, t)| *n != name || *z != zone || (name_matches && nsec.types.contains_type(*t)));
+			// Note that an NSEC at exactly `name` would prove that `name` exists, in which case a
+			// wildcard can't apply to it or anything below it. The same is true if the next name
+			// is below `name`.
+			let name_contained = nsec_ord(&nsec.name,  &name) == Ordering::Less &&
+				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&
+				!name_in_zone(&nsec.next_name, name);
+			if name_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
@@ -527,12 +529,11 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			} else { continue };
 			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
 
-			let hash_matches = &start_hash[..] == name_hash.as_ref();
+			// As above, an NSEC3 for exactly `name` would prove that it exists.
 			let hash_contained =
-				&start_hash[..] <= name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
-			if (hash_matches && !nsec3.types.contains_type(ty)) || hash_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, z, t)| *n != name || *z != zone || (hash_matches && nsec3.types.contains_type(*t)));
+				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
+			if hash_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
-- 
2.43.0


From 81eeeaa831712d0393062f9a20b07ca7e970d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:00 +0000
Subject: [PATCH 12/23] fix: process each zone only once when validating a
 record stream

A stream without any DS records looped forever on the root zone, a DS record at
its own zone's apex looped forever on that zone, and nested zones all delegating
to each other took exponential time.
---
 src/validation.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 24a168d..c2f6d10 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -363,6 +363,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	// NSEC/NSEC3 records, and the zone which signed them.
 	let mut denial_records: Vec<(&'a RR, &'a Name)> = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
+	// Zones which we've processed or which are in `pending_ds_sets`. We only ever walk each zone once.
+	let mut seen_zones = vec!["."];
 	let mut latest_inception = 0;
 	let mut earliest_expiry = u64::MAX;
 	let mut min_ttl = u32::MAX;
@@ -415,7 +417,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
-					if !pending_ds_sets.iter().any(|(pending_zone, _)| pending_zone == &rrsig.name.as_str()) {
+					if !seen_zones.contains(&rrsig.name.as_str()) {
+						seen_zones.push(&rrsig.name);
 						pending_ds_sets.push((
 							&rrsig.name,
 							signed_records.filter_map(|rr|
@@ -450,7 +453,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				},
 			}
 		}
-		continue 'next_zone;
+		if pending_ds_sets.is_empty() { break 'next_zone; }
 	}
 	if res.is_empty() { return Err(ValidationError::Invalid) }
 	if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }
-- 
2.43.0


From 1353d2f85abba8793ee0cf724533685fa236a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:02 +0000
Subject: [PATCH 13/23] fix: don't overflow on RRSIGs claiming 255 labels

An RRSIG over an empty set of records isn't compared with the labels in any
record name.
---
 src/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index c2f6d10..a914b85 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -440,7 +440,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						// signed as *.c, we want a proof for nothing being in b.c.
 						// Alternatively, if it was signed as *.b.c, we'd want a proof for
 						// a.b.c.
-						let proof_name = rrsig.name.trailing_n_labels(rrsig.labels + 1)
+						let proof_name = rrsig.labels.checked_add(1)
+							.and_then(|labels| rrsig.name.trailing_n_labels(labels))
 							.ok_or(ValidationError::Invalid)?;
 						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
 					}
-- 
2.43.0


From 648289b08691726138516bd2e2b9ca9146062ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 14/23] fix: refuse DS records expanded from a wildcard

They were followed without any proof that the name has no DS records itself.
---
 src/validation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index a914b85..7d71290 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -417,6 +417,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
+					// We'd need a proof that there isn't a different (or no) DS here, so just don't
+					// allow delegations to come from wildcards.
+					if rrsig.labels != rrsig.name.labels() { return Err(ValidationError::Invalid); }
 					if !seen_zones.contains(&rrsig.name.as_str()) {
 						seen_zones.push(&rrsig.name);
 						pending_ds_sets.push((
-- 
2.43.0


From 8c864929f0d1789492db5c2526304da064acf5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:05 +0000
Subject: [PATCH 15/23] fix: add 2^32, not 2^32 - 1, to times after 2106

---
 src/validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 7d71290..6c27ba0 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -293,7 +293,7 @@ fn resolve_time(time: u32) -> u64 {
 	// any timestamps before then are actually past 2106 instead.
 	// We ignore leap years for simplicity.
 	if time < 60*60*24*365*27 {
-		(time as u64) + (u32::MAX as u64)
+		(time as u64) + (u32::MAX as u64) + 1
 	} else {
 		time.into()
 	}
-- 
2.43.0


From ff2c851ae2886cc17217aca87d834f939333dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:36 +0000
Subject: [PATCH 16/23] fix: apply DNAMEs only strictly below them and at a
 label boundary

Additionally, DNAMEs at or to the root joined the two names incorrectly.
---
 src/validation.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 6c27ba0..cf63762 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -578,11 +578,16 @@ impl<'a> VerifiedRRStream<'a> {
 			}
 
 			let mut dname_search = self.verified_rrs.iter()
-				.filter(|rr| name.ends_with(&**rr.name()))
+				.filter(|rr| rr.name() != name && name_in_zone(name, rr.name()))
 				.filter_map(|rr| if let RR::DName(dn) = rr { Some(dn) } else { None });
 			if let Some(dname) = dname_search.next() {
-				let prefix = name.strip_suffix(&*dname.name).expect("We just filtered for this");
-				let resolved_name = prefix.to_owned() + &dname.delegation_name;
+				let prefix = if dname.name.as_str() == "." { name.as_str() } else {
+					name.strip_suffix(&*dname.name).expect("We just filtered for this")
+				};
+				let mut resolved_name = prefix.to_owned();
+				if dname.delegation_name.as_str() != "." {
+					resolved_name += &dname.delegation_name;
+				}
 				dname_name = if let Ok(name) = resolved_name.try_into() {
 					name
 				} else {
-- 
2.43.0


From a9d7b2d9a087a20282d580ac9ea8f36e11f6f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:37 +0000
Subject: [PATCH 17/23] fix: stop following CNAME/DNAME loops when resolving a
 name

---
 src/validation.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index cf63762..9941476 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -555,6 +555,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	})
 }
 
+/// The maximum number of [`CName`]s and [`DName`]s which we'll follow when resolving a name.
+const MAX_ALIAS_HOPS: usize = 256;
+
 impl<'a> VerifiedRRStream<'a> {
 	/// Given a name, resolve any [`CName`] records and return any verified records which were
 	/// pointed to by the original name.
@@ -562,13 +565,15 @@ impl<'a> VerifiedRRStream<'a> {
 	/// Note that because of [`CName`]s, the [`RR::name`] in the returned records may or may not be
 	/// equal to `name`.
 	///
+	/// If the aliases never end (or there are far too many of them) no records are returned.
+	///
 	/// You MUST still check that the current UNIX time is between
 	/// [`VerifiedRRStream::valid_from`] and [`VerifiedRRStream::expires`] before
 	/// using any records returned here.
 	pub fn resolve_name<'b>(&self, name_param: &'b Name) -> Vec<&'a RR> where 'a: 'b {
 		let mut dname_name;
 		let mut name = name_param;
-		loop {
+		for _ in 0..MAX_ALIAS_HOPS {
 			let mut cname_search = self.verified_rrs.iter()
 				.filter(|rr| rr.name() == name)
 				.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None });
@@ -600,6 +605,8 @@ impl<'a> VerifiedRRStream<'a> {
 
 			return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();
 		}
+		// The aliases (almost certainly) form a loop.
+		Vec::new()
 	}
 }
 
-- 
2.43.0


From d596ad73102bb44b322ee06a922c5fba969eaf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 18/23] fix: hash records in the canonical order of their wire
 encoding

Types with a name (or otherwise length-prefixed data) in them sorted by text
instead, and TXT records derived Ord while implementing PartialOrd by hand, with
the order used depending on how the standard library sorts.
---
 src/rr.rs         | 11 +++++++----
 src/validation.rs |  7 ++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 7eb6973..245d899 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -245,7 +245,7 @@ impl Record for RR {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A text resource record, containing arbitrary text data
 pub struct Txt {
 	/// The name this record is at.
@@ -259,8 +259,11 @@ pub struct Txt {
 /// The wire type for TXT records
 pub const TXT_TYPE: u16 = 16;
 impl PartialOrd for Txt {
-	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> {
-		Some(self.name.cmp(&o.name)
+	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(self.cmp(o)) }
+}
+impl Ord for Txt {
+	fn cmp(&self, o: &Txt) -> Ordering {
+		self.name.cmp(&o.name)
 			.then_with(|| {
 				// Compare in wire encoding form, i.e. compare in 255-byte chunks
 				for i in 1..(self.data.len() / 255) + 2 {
@@ -272,7 +275,7 @@ impl PartialOrd for Txt {
 					if !slice_cmp.is_eq() { return slice_cmp; }
 				}
 				Ordering::Equal
-			}))
+			})
 	}
 }
 impl StaticRecord for Txt {
diff --git a/src/validation.rs b/src/validation.rs
index 9941476..36fee3a 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -92,7 +92,12 @@ where Keys: IntoIterator<Item = &'a DnsKey> {
 			signed_data.extend_from_slice(&sig.key_tag.to_be_bytes());
 			write_name(&mut signed_data, &sig.key_name);
 
-			records.sort_unstable();
+			// RFC 4034 section 6.3 orders records by their wire-encoded data (without its length).
+			records.sort_by_cached_key(|record| {
+				let mut data = Vec::new();
+				record.write_u16_len_prefixed_data(&mut data);
+				data.split_off(2)
+			});
 
 			for record in records.iter() {
 				let record_labels = record.name().labels() as usize;
-- 
2.43.0


From 3bbcb18ff47ad22efd837699a5f4eff8863a2454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:57 +0000
Subject: [PATCH 19/23] fix: refuse RRSIGs which are too large to write
 uncompressed

Decompressing the signer's name can push the data past 65535 bytes, in which
case calculating its length overflowed when writing the record to a proof.
---
 src/rr.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 245d899..0396183 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -607,14 +607,19 @@ impl StaticRecord for RRSig {
 		out
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
-		Ok(RRSig {
+		let res = RRSig {
 			name, ty: read_u16(&mut data)?, alg: read_u8(&mut data)?,
 			labels: read_u8(&mut data)?, orig_ttl: read_u32(&mut data)?,
 			expiration: read_u32(&mut data)?, inception: read_u32(&mut data)?,
 			key_tag: read_u16(&mut data)?,
 			key_name: read_wire_packet_name(&mut data, wire_packet)?,
 			signature: data.to_vec(),
-		})
+		};
+		// If the `key_name` was compressed the record may be too large to ever write again.
+		if 2 + 1 + 1 + 4*3 + 2 + name_len(&res.key_name) as usize + res.signature.len() > u16::MAX as usize {
+			return Err(());
+		}
+		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
 		let len = 2 + 1 + 1 + 4*3 + 2 + name_len(&self.key_name) + self.signature.len() as u16;
-- 
2.43.0


From 44861b10ac849aebf16adbf80d5dd0aeb35395bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:15 +0000
Subject: [PATCH 20/23] fix: keep serving after failing to accept a connection

A single aborted connection (or running out of file descriptors) paniced the
accept loop, ending the server.
---
 src/http.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 51a6c20..fd4112d 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -46,7 +46,12 @@ mod imp {
 
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
 		loop {
-			let (mut socket, _) = listener.accept().await.expect("Failed to accept new TCP connection");
+			let mut socket = match listener.accept().await {
+				Ok((socket, _)) => socket,
+				// Failures (e.g. the client is already gone or we're out of file descriptors) aren't
+				// permanent, so just try again.
+				Err(_) => { tokio::task::yield_now().await; continue; },
+			};
 			tokio::spawn(async move {
 				let mut response = ("400 Bad Request", "Bad Request");
 				'ret_err: loop { // goto label
-- 
2.43.0


From 952e6e2b5dbe679290bdae5cc72c698f5070ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:15 +0000
Subject: [PATCH 21/23] fix: accept responses of exactly 65535 bytes in the
 WASM wrapper

---
 wasmpack/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/src/lib.rs b/wasmpack/src/lib.rs
index 57fe0a0..e949a50 100644
--- a/wasmpack/src/lib.rs
+++ b/wasmpack/src/lib.rs
@@ -40,7 +40,7 @@ pub fn init_proof_builder(mut name: String, ty: u16) -> Option<WASMProofBuilder>
 /// After calling this, [`get_next_query`] should be called until pending queries are exhausted and
 /// no more pending queries exist, at which point [`get_unverified_proof`] should be called.
 pub fn process_query_response(proof_builder: &mut WASMProofBuilder, response: Vec<u8>) {
-	if response.len() < u16::MAX as usize {
+	if response.len() <= u16::MAX as usize {
 		let mut answer = QueryBuf::new_zeroed(response.len() as u16);
 		answer.copy_from_slice(&response);
 		if let Ok(queries) = proof_builder.0.process_response(&answer) {
-- 
2.43.0


From 532119f611383e17b1499f915ffdf1af6ca1be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:57 +0000
Subject: [PATCH 22/23] fix: don't keep records from a response which is later
 refused

If only a later record in the response was invalid, the earlier ones stayed in
the proof without their TTLs or signers being considered.
---
 src/query.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 363006c..96a33e4 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -252,7 +252,9 @@ impl ProofBuilder {
 		if self.pending_queries == 0 { return Err(()); }
 
 		let mut rrsig_key_names = Vec::new();
-		let min_ttl = handle_response(&resp, &mut self.proof, &mut rrsig_key_names)?;
+		let mut new_records = Vec::new();
+		let min_ttl = handle_response(&resp, &mut new_records, &mut rrsig_key_names)?;
+		self.proof.extend_from_slice(&new_records);
 		self.min_ttl = cmp::min(self.min_ttl, min_ttl);
 		self.pending_queries -= 1;
 
-- 
2.43.0


From 4ec2aa95e6513af89c0da24d7d77fdbc4b07674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:00 +0000
Subject: [PATCH 23/23] fix: Compare only the contents of a QueryBuf

A buffer which moved to the heap keeps the bytes it had on the stack, so
two buffers holding the same bytes could compare as different depending
on how they were filled.
---
 src/query.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 96a33e4..9987169 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -27,12 +27,20 @@ const STACK_BUF_LIMIT: u16 = 32;
 const STACK_BUF_LIMIT: u16 = 2048;
 
 /// A buffer for storing queries and responses.
-#[derive(Clone, PartialEq, Eq)]
+#[derive(Clone)]
 pub struct QueryBuf {
 	buf: [u8; STACK_BUF_LIMIT as usize],
 	heap_buf: Vec<u8>,
 	len: u16,
 }
+impl PartialEq for QueryBuf {
+	fn eq(&self, o: &QueryBuf) -> bool {
+		// Note that `buf` may hold stale bytes (once we've moved to the heap), so compare only what
+		// is actually in the buffer.
+		self[..] == o[..]
+	}
+}
+impl Eq for QueryBuf {}
 impl QueryBuf {
 	/// Generates a new buffer of the given length, consisting of all zeros.
 	pub fn new_zeroed(len: u16) -> Self {
-- 
2.43.0

