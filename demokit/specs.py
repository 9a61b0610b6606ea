"""The planted bugs: edits to /repo (file, old, new) and the demonstration's body."""
V, R, S, Q = 'src/validation.rs', 'src/rr.rs', 'src/ser.rs', 'src/query.rs'

RESP = '''
/// A resolver response: header, questions, answers and authorities with TTLs.
fn resp(questions: u16, answers: &[(RR, u32)], authorities: &[(RR, u32)]) -> QueryBuf {
	let mut v = vec![0u8, 0, 0x81, 0xa0];
	v.extend(questions.to_be_bytes());
	v.extend((answers.len() as u16).to_be_bytes());
	v.extend((authorities.len() as u16).to_be_bytes());
	v.extend([0, 0]);
	for _ in 0..questions { v.extend(wire("a.com.")); v.extend([0, 1, 0, 1]); }
	for (rr, ttl) in answers.iter().chain(authorities.iter()) { write_rr(rr, *ttl, &mut v); }
	let mut b = QueryBuf::new_zeroed(0);
	b.extend_from_slice(&v);
	b
}
fn sig(owner: &str, ty: u16, signer: &str) -> RR {
	RR::RRSig(RRSig { name: n(owner), ty, alg: 13, labels: labels(owner), orig_ttl: 60, expiration: 1_800_000_000,
		inception: 1_700_000_000, key_tag: 1, key_name: n(signer), signature: vec![7; 64] })
}
fn nsec(owner: &str, next: &str) -> RR {
	RR::NSec(NSec { name: n(owner), next_name: n(next), types: NSecTypeMask::from_types(&[1, 46, 47]) })
}
'''

NSEC3 = '''
fn b32(d: &[u8]) -> String {
	let mut s = String::new();
	for i in 0..32 {
		let bit = i * 5;
		let w = ((d[bit / 8] as u16) << 8) | *d.get(bit / 8 + 1).unwrap_or(&0) as u16;
		s.push(b"0123456789abcdefghijklmnopqrstuv"[(w >> (11 - bit % 8)) as usize & 31] as char);
	}
	s
}
fn hash(name: &str, salt: &[u8], iterations: u16) -> Vec<u8> {
	let mut h = wire(name);
	for _ in 0..=iterations {
		h.extend(salt);
		h = ring::digest::digest(&ring::digest::SHA1_FOR_LEGACY_USE_ONLY, &h).as_ref().to_vec();
	}
	h
}
/// The NSEC3 record around the hash of `name`.
fn nsec3(name: &str, zone: &str, flags: u8, hash_iterations: u16) -> RR {
	let (mut lo, mut hi) = (hash(name, &[7, 9], hash_iterations), hash(name, &[7, 9], hash_iterations));
	for i in (0..20).rev() { if lo[i] != 0 { lo[i] -= 1; break; } lo[i] = 255; }
	for i in (0..20).rev() { if hi[i] != 255 { hi[i] += 1; break; } hi[i] = 0; }
	RR::NSec3(NSec3 { name: n(&format!("{}.{}", b32(&lo), zone)), hash_algo: 1, flags, hash_iterations, salt: vec![7, 9],
		next_name_hash: hi, types: NSecTypeMask::from_types(&[1]) })
}
'''

SPECS = [
 dict(id='c10-cutoff', property='C10', edits=[(V, 'if time < 60*60*24*365*27 {', 'if time < 60*60*24*365*17 {')],
  needs='an RRSIG time between 17 and 27 years after 1970', breaks='a time before 1997 is no longer read as one after the 2106 rollover',
  case='''
pub fn run() {
	let s = Sig { expiration: 700_000_000, ..SIG };
	let (rk, mut v) = root(SIG);
	put(&rk, ".", &[a("a.", 1)], s, &mut v);
	let r = verify_rr_stream(&v).unwrap();
	assert_eq!(r.expires, 1_800_000_000);
	let s = Sig { inception: 100_000_000, expiration: 700_000_000, ..SIG };
	let (rk, mut v) = root(s);
	put(&rk, ".", &[a("a.", 1)], s, &mut v);
	let r = verify_rr_stream(&v).unwrap();
	assert_eq!(r.expires, 700_000_000 + (1u64 << 32));
}
'''),
 dict(id='c27-authority-ttl', property='C27',
  edits=[(Q, 'min_ttl = cmp::min(min_ttl, ttl);\n\t\tif let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }\n\t}\n\n\tOk(min_ttl)',
             'if let RR::RRSig(rrsig) = rr {\n\t\t\tmin_ttl = cmp::min(min_ttl, ttl);\n\t\t\trrsig_key_names.push(rrsig.key_name);\n\t\t}\n\t}\n\n\tOk(min_ttl)')],
  needs='an NSEC record in the authority section with a smaller TTL than everything else', breaks='the TTL of NSEC records in the proof is ignored',
  case=RESP + '''
pub fn run() {
	let (mut b, _) = ProofBuilder::new(&n("a.com."), 1);
	b.process_response(&resp(1, &[(a("a.com.", 1), 300)], &[(nsec("b.com.", "c.com."), 5)])).unwrap();
	assert_eq!(b.finish_proof().unwrap().1, 5);
}
'''),
 dict(id='c33-carry', property='C33', edits=[(R, 'res += (res >> 16) & 0xffff;', 'res += (res >> 16) & 0xff;')],
  needs='a key so long that the checksum carries more than 8 bits', breaks='the key tag of very long keys',
  case='''
pub fn run() {
	for len in [4usize, 33, 514, 515, 2000] {
		let k = DnsKey { name: n("."), flags: 257, protocol: 3, alg: 8, pubkey: vec![0xfb; len] };
		let mut rd = vec![1u8, 1, 3, 8];
		rd.extend(&k.pubkey);
		let mut ac = 0u32;
		for (i, b) in rd.iter().enumerate() { ac += if i & 1 == 1 { *b as u32 } else { (*b as u32) << 8 }; }
		ac += ac >> 16 & 0xffff;
		assert_eq!(k.key_tag(), ac as u16);
	}
}
'''),
 dict(id='c24-questions', property='C24', edits=[(Q, 'if questions != 1 { return Err(()); }', 'if questions > 2 { return Err(()); }')],
  needs='a response with no or two questions', breaks='responses with a question count other than one are used',
  case=RESP + '''
pub fn run() {
	for q in [0, 2, 3] {
		let (mut b, _) = ProofBuilder::new(&n("a.com."), 1);
		assert!(b.process_response(&resp(q, &[(a("a.com.", 1), 300)], &[])).is_err(), "{} questions", q);
	}
	let (mut b, _) = ProofBuilder::new(&n("a.com."), 1);
	assert!(b.process_response(&resp(1, &[(a("a.com.", 1), 300)], &[])).is_ok());
}
'''),
 dict(id='c26-limit', property='C26', edits=[(Q, 'if self.queries_made <= MAX_REQUESTS {\n\t\t\tOk(new_queries)', 'if self.dnskeys_requested.len() <= MAX_REQUESTS {\n\t\t\tOk(new_queries)')],
  needs='responses naming more than five different signers', breaks='more than ten queries are handed out',
  case=RESP + '''
pub fn run() {
	let (mut b, _) = ProofBuilder::new(&n("a.com."), 1);
	let mut out = 1;
	let names: Vec<String> = (0..6).map(|i| format!("z{}.com.", i)).collect();
	let v: Vec<(RR, u32)> = names.iter().map(|z| (sig("a.com.", 1, z), 60)).collect();
	out += b.process_response(&resp(1, &v, &[])).unwrap().len();
	assert!(out <= 10, "{} queries", out);
	assert!(b.finish_proof().is_err());
}
'''),
 dict(id='c25-nsec3-sigs', property='C25', edits=[(Q, 'if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {', 'if rrsig.ty != NSec::TYPE || rrsig.ty == NSec3::TYPE {')],
  needs='an RRSIG over an NSEC3 record in the authority section', breaks='RRSIGs over NSEC3 records are left out of the proof',
  case=RESP + '''
pub fn run() {
	for ty in [47, 50] {
		let (mut b, _) = ProofBuilder::new(&n("a.com."), 1);
		let s = sig("b.com.", ty, "com.");
		let q = b.process_response(&resp(1, &[(a("a.com.", 1), 300)], &[(s.clone(), 60)])).unwrap();
		assert_eq!(q.len(), 2);
	}
}
'''),
 dict(id='c01-zone-flag', property='C01', edits=[(V, 'if dnskey.flags & 0b1_0000_0000 == 0 { continue; }', 'if dnskey.flags & 0b1_0000_0001 == 0 { continue; }')],
  needs='a DNSKEY with the SEP but not the zone-key flag', breaks='signatures by keys that are not zone keys are accepted',
  case='''
pub fn run() {
	for (flags, ok) in [(257, true), (256, true), (1, false), (0, false)] {
		let (rk, mut v) = root(SIG);
		let k = Key::new(9, flags);
		put(&rk, ".", &[ds(&k, "com.")], SIG, &mut v);
		put(&k, "com.", &[dnskey(&k, "com.")], SIG, &mut v);
		put(&k, "com.", &[a("a.com.", 1)], SIG, &mut v);
		assert_eq!(verify_rr_stream(&v).is_ok(), ok, "flags {}", flags);
	}
}
'''),
 dict(id='c02-sha1-downgrade', property='C02', edits=[(V, 'all(|ds| ds.digest_type != 2 && ds.digest_type != 4)', 'all(|ds| ds.digest_type != 2 || ds.digest_type == 4)')],
  needs='a DS set with a SHA-1 and a SHA-384 entry', breaks='SHA-1 is used although the parent published a stronger digest',
  case='''
pub fn run() {
	for (other, ok) in [(0u8, true), (4, false), (2, false)] {
		let (rk, mut v) = root(SIG);
		let k = Key::new(9, 257);
		let mut d = wire("com.");
		d.extend(k.rdata());
		let h = ring::digest::digest(&ring::digest::SHA1_FOR_LEGACY_USE_ONLY, &d).as_ref().to_vec();
		let mut dss = vec![RR::DS(DS { name: n("com."), key_tag: k.tag(), alg: 15, digest_type: 1, digest: h })];
		if other != 0 {
			dss.push(RR::DS(DS { name: n("com."), key_tag: k.tag(), alg: 15, digest_type: other, digest: vec![1; 48] }));
		}
		put(&rk, ".", &dss, SIG, &mut v);
		put(&k, "com.", &[dnskey(&k, "com.")], SIG, &mut v);
		put(&k, "com.", &[a("a.com.", 1)], SIG, &mut v);
		assert_eq!(verify_rr_stream(&v).is_ok(), ok, "second digest type {}", other);
	}
}
'''),
 dict(id='c03-nsec-wildcard', property='C03', edits=[(V, 'if record.ty() != NSec::TYPE && record_labels != labels {', 'if record.ty() != NSec3::TYPE && record_labels != labels {')],
  needs='an NSEC record signed at a wildcard and presented under an expanded name', breaks='an NSEC record is checked under the wildcard name, so its owner can be changed',
  case='''
pub fn run() {
	let (rk, mut v) = root(SIG);
	let k = delegate(&rk, ".", "com.", 2, SIG, &mut v);
	put(&k, "com.", &[a("a.com.", 1)], SIG, &mut v);
	assert!(verify_rr_stream(&v).is_ok());
	let w = RR::NSec(NSec { name: n("x.com."), next_name: n("z.com."), types: NSecTypeMask::from_types(&[1]) });
	v.push(w.clone());
	v.push(sign_types(&k, "com.", &[w], Sig { labels: Some(1), ..SIG }, &[1]));
	assert!(verify_rr_stream(&v).is_err());
}
'''),
 dict(id='c07-tlsa', property='C07', edits=[(V, 'if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {', 'if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE && rrsig.ty != TLSA::TYPE {')],
  needs='a TLSA record expanded from a wildcard', breaks='such a wildcard answer needs no proof that the name itself does not exist',
  case='''
pub fn run() {
	let (rk, mut v) = root(SIG);
	let k = delegate(&rk, ".", "com.", 2, SIG, &mut v);
	put(&k, "com.", &[a("b.com.", 1)], SIG, &mut v);
	assert!(verify_rr_stream(&v).is_ok());
	let name = "_443._tcp.com.";
	let t = RR::TLSA(TLSA { name: n(name), cert_usage: 3, selector: 1, data_ty: 1, data: vec![5; 32] });
	for rr in [a(name, 7), txt(name, b"x"), t] {
		let mut v = v.clone();
		put(&k, "com.", &[rr.clone()], Sig { labels: Some(1), ..SIG }, &mut v);
		assert!(verify_rr_stream(&v).is_err(), "{:?}", rr);
	}
}
'''),
 dict(id='c09-dnskey-ttl', property='C09', edits=[(V, 'min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);', 'if next_ds_set.is_none() { min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl); }')],
  needs='a zone below the root whose DNSKEY signature has the smallest TTL', breaks='the reported cache lifetime exceeds a signature\'s original TTL',
  case='''
pub fn run() {
	for ttl in [7, 3600, 9000] {
		let (rk, mut v) = root(SIG);
		let k = Key::new(9, 257);
		put(&rk, ".", &[ds(&k, "com.")], SIG, &mut v);
		put(&k, "com.", &[dnskey(&k, "com.")], Sig { ttl, ..SIG }, &mut v);
		put(&k, "com.", &[a("a.com.", 1)], SIG, &mut v);
		assert_eq!(verify_rr_stream(&v).unwrap().max_cache_ttl, ttl.min(3600));
	}
}
'''),
 dict(id='c20-pointer', property='C20', edits=[(S, 'let offs = ((len & !0xc0) << 8) | read_u8(inp)? as usize;', 'let offs = ((len & 0x1f) << 8) | read_u8(inp)? as usize;')],
  needs='a response of more than 8 KiB with a name compressed to an offset beyond 8191', breaks='compression pointers beyond offset 8191 go to the wrong place',
  case='''
pub fn run() {
	// question, a long TXT, then an answer whose owner is in the tail
	let mut v = vec![0u8, 0, 0x81, 0xa0, 0, 1, 0, 3, 0, 0, 0, 0];
	v.extend(wire("q.com."));
	v.extend([0, 1, 0, 1]);
	write_rr(&txt("q.com.", &[b'x'; 9000]), 60, &mut v);
	let offs = v.len();
	write_rr(&a("far.example.", 1), 60, &mut v);
	v.extend([0xc0 | (offs >> 8) as u8, offs as u8, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 10, 0, 0, 2]);
	let mut b = QueryBuf::new_zeroed(0);
	b.extend_from_slice(&v);
	let (mut p, _) = ProofBuilder::new(&n("q.com."), 1);
	p.process_response(&b).unwrap();
	let rrs = parse_rr_stream(&p.finish_proof().unwrap().0).unwrap();
	assert_eq!(rrs[2], a("far.example.", 2));
}
'''),

 dict(id='c40-iterations', property='C40', edits=[(V, 'if nsec3.hash_iterations > 2500 {', 'if nsec3.hash_iterations > 2048 {')],
  needs='a wildcard answer whose denial is an NSEC3 record with 2049 to 2500 iterations', breaks='such a record is passed over although it is usable',
  case=NSEC3 + '''
pub fn run() {
	for (it, ok) in [(0, true), (100, true), (2048, true), (2049, true), (2500, true), (2501, false)] {
		let (rk, mut v) = root(SIG);
		let k = delegate(&rk, ".", "com.", 2, SIG, &mut v);
		put(&k, "com.", &[a("x.com.", 7)], Sig { labels: Some(1), ..SIG }, &mut v);
		let d = nsec3("x.com.", "com.", 0, it);
		v.push(d.clone());
		v.push(sign_types(&k, "com.", &[d], SIG, &[1]));
		assert_eq!(verify_rr_stream(&v).is_ok(), ok, "{} iterations", it);
	}
}
'''),
 dict(id='c37-optout-stop', property='C37', edits=[(V, "it as proof that some record doesn't exist.\n\t\t\t\tcontinue;", "it as proof that some record doesn't exist.\n\t\t\t\tbreak;")],
  needs='an opt-out NSEC3 record ahead of the one that proves the denial', breaks='the records after an opt-out NSEC3 record are not looked at',
  case=NSEC3 + '''
pub fn run() {
	for order in [[0u8, 1], [1, 0]] {
		let (rk, mut v) = root(SIG);
		let k = delegate(&rk, ".", "com.", 2, SIG, &mut v);
		put(&k, "com.", &[a("x.com.", 7)], Sig { labels: Some(1), ..SIG }, &mut v);
		for flags in order {
			let d = if flags == 1 { nsec3("other.com.", "com.", 1, 3) } else { nsec3("x.com.", "com.", 0, 3) };
			v.push(d.clone());
			v.push(sign_types(&k, "com.", &[d], SIG, &[1]));
		}
		assert!(verify_rr_stream(&v).is_ok(), "{:?}", order);
	}
}
'''),
 dict(id='c39-nothing', property='C39', edits=[(V, '\tif res.is_empty() { return Err(ValidationError::Invalid) }\n', '')],
  needs='a proof with a valid root key set and no record at all below it', breaks='a proof that proves nothing is a success',
  case='''
pub fn run() {
	let (rk, mut v) = root(SIG);
	assert!(verify_rr_stream(&v).is_err());
	put(&rk, ".", &[a("a.", 1)], SIG, &mut v);
	assert!(verify_rr_stream(&v).is_ok());
}
'''),
 dict(id='c19-long', property='C19', edits=[(R, 'if s.len() > 255 { return Err(()); }', 'if s.len() > 256 { return Err(()); }')],
  needs='a name of 256 bytes', breaks='a name longer than any name is made',
  case='''
pub fn run() {
	let l = "a".repeat(63) + ".";
	assert!(Name::try_from(l.repeat(4)).is_err());
	assert!(Name::try_from(l.repeat(3) + &"a".repeat(62) + ".").is_ok());
}
'''),
 dict(id='c21-window', property='C21', edits=[(R, "let f = self.0[(ty >> 3) as usize];", "let f = self.0[(ty >> 3) as usize & 0xfff];")],
  needs='a type of 32768 or more in a bitmap', breaks='membership of such a type is looked up in the wrong byte',
  case='''
pub fn run() {
	let all = [1u16, 46, 127, 128, 255, 256, 257, 400, 8191, 8192, 32767, 32768, 32769, 65000, 65535];
	for t in all {
		let mut v = wire("a.com.");
		v.extend([0, 47, 0, 1, 0, 0, 0, 60]);
		let d = rdata(&RR::NSec(NSec { name: n("a.com."), next_name: n("b.com."), types: NSecTypeMask::from_types(&[]) }), &[t]).1;
		v.extend((d.len() as u16).to_be_bytes());
		v.extend(d);
		let rrs = parse_rr_stream(&v).unwrap();
		let m = if let RR::NSec(x) = &rrs[0] { &x.types } else { panic!() };
		for o in all { assert_eq!(m.contains_type(o), o == t, "{} {}", t, o); }
	}
}
'''),

 dict(id='c28-edge', property='C28', edits=[(Q, "\tpub fn into_vec(self) -> Vec<u8> {\n\t\tif self.len > STACK_BUF_LIMIT {", "\tpub fn into_vec(self) -> Vec<u8> {\n\t\tif self.len >= STACK_BUF_LIMIT {")],
  needs='a buffer of exactly the inline size', breaks='the bytes of such a buffer are lost when it is turned into a vector',
  case='''
pub fn run() {
	for len in [0usize, 1, 31, 32, 33, 2047, 2048, 2049, 4096, 65535] {
		let d: Vec<u8> = (0..len).map(|i| (i * 7 + 1) as u8).collect();
		let mut b = QueryBuf::new_zeroed(0);
		b.extend_from_slice(&d);
		assert_eq!(&b[..], &d[..]);
		assert_eq!(b.into_vec(), d, "{} bytes", len);
	}
}
'''),
 dict(id='c38-hex', property='C38', edits=[(R, 'self.name.0, self.cert_usage, self.selector, self.data_ty\n\t\t).expect("Write to a String shouldn\'t fail");\n\t\tfor c in self.data.iter() {', 'self.name.0, self.cert_usage, self.selector, self.data_ty\n\t\t).expect("Write to a String shouldn\'t fail");\n\t\tfor c in self.data.iter().take(64) {')],
  needs='a TLSA record whose data is longer than a SHA-512 digest', breaks='the JSON of such a record leaves out the tail of its data',
  case='''
pub fn run() {
	for len in [0usize, 1, 32, 64, 65, 300] {
		let d: Vec<u8> = (0..len).map(|i| i as u8).collect();
		let hex: String = d.iter().map(|b| format!("{:02x}", b)).collect();
		let t = RR::TLSA(TLSA { name: n("a.com."), cert_usage: 3, selector: 0, data_ty: 0, data: d });
		assert!(t.json().to_lowercase().contains(&format!("\\"{}\\"", hex)), "{} bytes", len);
	}
}
'''),
 dict(id='c14-last', property='C14', edits=[(S, "if inp.len() < 4 { return Err(()); }", "if inp.len() < 3 { return Err(()); }")],
  needs='a stream cut after the third byte of a 32-bit number', breaks='reading such a stream panics',
  case='''
pub fn run() {
	let mut v = Vec::new();
	write_rr(&sig(), 60, &mut v);
	write_rr(&a("a.com.", 1), 60, &mut v);
	let whole = v.clone();
	assert_eq!(parse_rr_stream(&whole).unwrap().len(), 2);
	for cut in 0..whole.len() {
		let r = std::panic::catch_unwind(|| parse_rr_stream(&whole[..cut]).is_ok());
		assert!(r.is_ok(), "cut at {}", cut);
	}
}
fn sig() -> RR {
	RR::RRSig(RRSig { name: n("a.com."), ty: 1, alg: 13, labels: 2, orig_ttl: 60, expiration: 1_800_000_000,
		inception: 1_700_000_000, key_tag: 1, key_name: n("com."), signature: vec![7; 64] })
}
'''),
]
