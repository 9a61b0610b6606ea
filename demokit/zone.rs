//! A toy signer: owner names, RDATA and signed bytes are all encoded here, not by the crate under test.
use crate::key::Key;
use dnssec_prover::rr::*;
use std::convert::TryInto;

pub fn n(s: &str) -> Name { s.try_into().unwrap() }

pub fn wire(name: &str) -> Vec<u8> {
	let mut v = Vec::new();
	if name != "." {
		for l in name.trim_end_matches('.').split('.') { v.push(l.len() as u8); v.extend(l.as_bytes()); }
	}
	v.push(0);
	v
}

pub fn labels(name: &str) -> u8 {
	if name == "." { return 0; }
	let l = name.trim_end_matches('.').split('.').count() as u8;
	if name.starts_with("*.") { l - 1 } else { l }
}

fn txt_rdata(d: &[u8]) -> Vec<u8> {
	let mut v = Vec::new();
	for c in d.chunks(255) { v.push(c.len() as u8); v.extend(c); }
	if d.is_empty() { v.push(0); }
	v
}

pub fn bitmap(types: &[u16]) -> Vec<u8> {
	let mut t = types.to_vec();
	t.sort();
	let mut out = Vec::new();
	let mut w = 0;
	while w < 256u16 {
		let mut b = [0u8; 32];
		let mut len = 0;
		for x in t.iter().filter(|x| **x >> 8 == w) {
			let lo = (x & 255) as usize;
			b[lo / 8] |= 0x80 >> (lo % 8);
			len = len.max(lo / 8 + 1);
		}
		if len > 0 { out.push(w as u8); out.push(len as u8); out.extend(&b[..len]); }
		w += 1;
	}
	out
}

/// RDATA of the record types the demos use (types lists the NSEC bitmap).
pub fn rdata(rr: &RR, types: &[u16]) -> (u16, Vec<u8>) {
	let mut v = Vec::new();
	match rr {
		RR::A(a) => { v.extend(a.address); (1, v) },
		RR::AAAA(a) => { v.extend(a.address); (28, v) },
		RR::Txt(t) => (16, txt_rdata(&t.data)),
		RR::CName(c) => (5, wire(&c.canonical_name)),
		RR::DName(c) => (39, wire(&c.delegation_name)),
		RR::NS(c) => (2, wire(&c.name_server)),
		RR::TLSA(t) => { v.extend([t.cert_usage, t.selector, t.data_ty]); v.extend(&t.data); (52, v) },
		RR::DnsKey(k) => { v.extend(k.flags.to_be_bytes()); v.extend([k.protocol, k.alg]); v.extend(&k.pubkey); (48, v) },
		RR::DS(d) => { v.extend(d.key_tag.to_be_bytes()); v.extend([d.alg, d.digest_type]); v.extend(&d.digest); (43, v) },
		RR::NSec(x) => { v.extend(wire(&x.next_name)); v.extend(bitmap(types)); (47, v) },
		RR::NSec3(x) => {
			v.extend([x.hash_algo, x.flags]);
			v.extend(x.hash_iterations.to_be_bytes());
			v.push(x.salt.len() as u8);
			v.extend(&x.salt);
			v.push(x.next_name_hash.len() as u8);
			v.extend(&x.next_name_hash);
			v.extend(bitmap(types));
			(50, v)
		},
		RR::RRSig(_) => panic!(),
	}
}

#[derive(Clone, Copy)]
pub struct Sig { pub inception: u32, pub expiration: u32, pub ttl: u32, pub labels: Option<u8>, pub alg: u8 }
pub const SIG: Sig = Sig { inception: 1_700_000_000, expiration: 1_800_000_000, ttl: 3600, labels: None, alg: 15 };

/// Signs one RRset (all of one owner and type) as `zone` with `key`.
pub fn sign(key: &Key, zone: &str, rrs: &[RR], s: Sig) -> RR { sign_types(key, zone, rrs, s, &[]) }

pub fn sign_types(key: &Key, zone: &str, rrs: &[RR], s: Sig, types: &[u16]) -> RR {
	let owner = rrs[0].name().as_str().to_string();
	let ty = rdata(&rrs[0], types).0;
	let lab = s.labels.unwrap_or(labels(&owner));
	let mut d = Vec::new();
	d.extend(ty.to_be_bytes());
	d.push(s.alg);
	d.push(lab);
	d.extend(s.ttl.to_be_bytes());
	d.extend(s.expiration.to_be_bytes());
	d.extend(s.inception.to_be_bytes());
	d.extend(key.tag().to_be_bytes());
	d.extend(wire(zone));
	let own = if lab < labels(&owner) {
		let l: Vec<&str> = owner.trim_end_matches('.').split('.').collect();
		let mut t = String::from("*.");
		for x in &l[l.len() - lab as usize..] { t.push_str(x); t.push('.'); }
		t
	} else { owner.clone() };
	let mut rds: Vec<Vec<u8>> = rrs.iter().map(|r| rdata(r, types).1).collect();
	rds.sort();
	for r in rds {
		d.extend(wire(&own));
		d.extend(ty.to_be_bytes());
		d.extend(1u16.to_be_bytes());
		d.extend(s.ttl.to_be_bytes());
		d.extend((r.len() as u16).to_be_bytes());
		d.extend(r);
	}
	RR::RRSig(RRSig {
		name: n(&owner), ty, alg: s.alg, labels: lab, orig_ttl: s.ttl, expiration: s.expiration, inception: s.inception,
		key_tag: key.tag(), key_name: n(zone), signature: key.kp.sign(&d).as_ref().to_vec(),
	})
}

pub fn dnskey(key: &Key, zone: &str) -> RR {
	RR::DnsKey(DnsKey { name: n(zone), flags: key.flags, protocol: key.protocol, alg: 15, pubkey: key.public() })
}

pub fn ds(key: &Key, zone: &str) -> RR {
	RR::DS(DS { name: n(zone), key_tag: key.tag(), alg: 15, digest_type: 2, digest: key.digest(&wire(zone)) })
}

/// The root key set, signed by the demo's root key.
pub fn root(s: Sig) -> (Key, Vec<RR>) {
	let k = Key::new(1, 257);
	let d = dnskey(&k, ".");
	let v = vec![d.clone(), sign(&k, ".", &[d], s)];
	(k, v)
}

/// A delegation of `zone` from `parent`, and the zone's own key set.
pub fn delegate(pk: &Key, parent: &str, zone: &str, seed: u8, s: Sig, into: &mut Vec<RR>) -> Key {
	let k = Key::new(seed, 257);
	let d = ds(&k, zone);
	into.push(d.clone());
	into.push(sign(pk, parent, &[d], s));
	let d = dnskey(&k, zone);
	into.push(d.clone());
	into.push(sign(&k, zone, &[d], s));
	k
}

/// Adds an RRset and its signature.
pub fn put(k: &Key, zone: &str, rrs: &[RR], s: Sig, into: &mut Vec<RR>) {
	into.extend(rrs.iter().cloned());
	into.push(sign(k, zone, rrs, s));
}

pub fn a(name: &str, x: u8) -> RR { RR::A(A { name: n(name), address: [10, 0, 0, x] }) }
pub fn txt(name: &str, d: &[u8]) -> RR { RR::Txt(Txt { name: n(name), data: d.to_vec() }) }
