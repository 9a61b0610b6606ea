//! An Ed25519 zone key, made without the crate under test.
use ring::digest;
use ring::signature::{Ed25519KeyPair, KeyPair};

pub struct Key { pub kp: Ed25519KeyPair, pub flags: u16, pub protocol: u8 }

#[allow(dead_code)]
impl Key {
	pub fn new(seed: u8, flags: u16) -> Key {
		Key { kp: Ed25519KeyPair::from_seed_unchecked(&[seed; 32]).unwrap(), flags, protocol: 3 }
	}
	pub fn public(&self) -> Vec<u8> { self.kp.public_key().as_ref().to_vec() }
	pub fn rdata(&self) -> Vec<u8> {
		let mut v = self.flags.to_be_bytes().to_vec();
		v.push(self.protocol);
		v.push(15);
		v.extend(self.public());
		v
	}
	pub fn tag(&self) -> u16 {
		let mut ac = 0u32;
		for (i, b) in self.rdata().iter().enumerate() { ac += if i & 1 == 1 { *b as u32 } else { (*b as u32) << 8 }; }
		ac += (ac >> 16) & 0xffff;
		(ac & 0xffff) as u16
	}
	pub fn digest(&self, wire_owner: &[u8]) -> Vec<u8> {
		let mut v = wire_owner.to_vec();
		v.extend(self.rdata());
		digest::digest(&digest::SHA256, &v).as_ref().to_vec()
	}
}
