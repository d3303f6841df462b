//! Reference implementation of chacha20-poly1305@openssh.com (from PROTOCOL.chacha20poly1305 and
//! D. J. Bernstein's ChaCha/Poly1305 papers), of the exchange hash (RFC 5656/8731) and of the key
//! derivation (RFC 4253 section 7.2). SHA-256 itself is taken from the sha2 crate.
use crate::rmsg::{put_mpint, put_str};
use sha2::{Digest, Sha256};

fn chacha_block(key: &[u8; 32], nonce: &[u8; 8], counter: u64) -> [u8; 64] {
	let w = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
	let mut s = [0u32; 16];
	s[0] = 0x61707865;
	s[1] = 0x3320646e;
	s[2] = 0x79622d32;
	s[3] = 0x6b206574;
	for i in 0..8 {
		s[4 + i] = w(&key[4 * i..]);
	}
	s[12] = counter as u32;
	s[13] = (counter >> 32) as u32;
	s[14] = w(&nonce[0..]);
	s[15] = w(&nonce[4..]);
	let mut x = s;
	fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
		x[a] = x[a].wrapping_add(x[b]);
		x[d] = (x[d] ^ x[a]).rotate_left(16);
		x[c] = x[c].wrapping_add(x[d]);
		x[b] = (x[b] ^ x[c]).rotate_left(12);
		x[a] = x[a].wrapping_add(x[b]);
		x[d] = (x[d] ^ x[a]).rotate_left(8);
		x[c] = x[c].wrapping_add(x[d]);
		x[b] = (x[b] ^ x[c]).rotate_left(7);
	}
	for _ in 0..10 {
		qr(&mut x, 0, 4, 8, 12);
		qr(&mut x, 1, 5, 9, 13);
		qr(&mut x, 2, 6, 10, 14);
		qr(&mut x, 3, 7, 11, 15);
		qr(&mut x, 0, 5, 10, 15);
		qr(&mut x, 1, 6, 11, 12);
		qr(&mut x, 2, 7, 8, 13);
		qr(&mut x, 3, 4, 9, 14);
	}
	let mut o = [0; 64];
	for i in 0..16 {
		o[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
	}
	o
}

fn chacha_xor(key: &[u8; 32], nonce: &[u8; 8], mut counter: u64, data: &mut [u8]) {
	for c in data.chunks_mut(64) {
		let k = chacha_block(key, nonce, counter);
		for (a, b) in c.iter_mut().zip(k.iter()) {
			*a ^= b;
		}
		counter += 1;
	}
}

/// 26-bit limb arithmetic modulo 2^130 - 5.
fn poly1305(key: &[u8], data: &[u8]) -> [u8; 16] {
	let w = |b: &[u8]| u64::from(u32::from_le_bytes([b[0], b[1], b[2], b[3]]));
	let r = [
		w(&key[0..]) & 0x3ffffff,
		(w(&key[3..]) >> 2) & 0x3ffff03,
		(w(&key[6..]) >> 4) & 0x3ffc0ff,
		(w(&key[9..]) >> 6) & 0x3f03fff,
		(w(&key[12..]) >> 8) & 0x00fffff,
	];
	let mut h = [0u64; 5];
	for c in data.chunks(16) {
		let mut b = [0u8; 17];
		b[..c.len()].copy_from_slice(c);
		b[c.len()] = 1;
		h[0] += w(&b[0..]) & 0x3ffffff;
		h[1] += (w(&b[3..]) >> 2) & 0x3ffffff;
		h[2] += (w(&b[6..]) >> 4) & 0x3ffffff;
		h[3] += (w(&b[9..]) >> 6) & 0x3ffffff;
		h[4] += (w(&b[12..]) >> 8) | (u64::from(b[16]) << 24);
		let mut d = [0u64; 5];
		for i in 0..5 {
			for j in 0..5 {
				let m = if i + j >= 5 { 5 } else { 1 };
				d[(i + j) % 5] += h[i] * r[j] * m;
			}
		}
		let mut carry = 0;
		for i in 0..5 {
			let v = d[i] + carry;
			h[i] = v & 0x3ffffff;
			carry = v >> 26;
		}
		h[0] += carry * 5;
		h[1] += h[0] >> 26;
		h[0] &= 0x3ffffff;
	}
	// Full carry, then subtract the modulus if possible
	for _ in 0..3 {
		let mut carry = 0;
		for v in h.iter_mut() {
			let t = *v + carry;
			*v = t & 0x3ffffff;
			carry = t >> 26;
		}
		h[0] += carry * 5;
	}
	let mut g = h;
	g[0] += 5;
	for i in 0..4 {
		g[i + 1] += g[i] >> 26;
		g[i] &= 0x3ffffff;
	}
	if g[4] >> 26 != 0 {
		g[4] &= 0x3ffffff;
		h = g;
	}
	let n = u128::from(h[0])
		| u128::from(h[1]) << 26
		| u128::from(h[2]) << 52
		| u128::from(h[3]) << 78
		| u128::from(h[4]) << 104;
	let mut s = [0; 16];
	s.copy_from_slice(&key[16..32]);
	n.wrapping_add(u128::from_le_bytes(s)).to_le_bytes()
}

/// One direction of a connection.
#[derive(Clone)]
pub struct Aead {
	main: [u8; 32],
	len: [u8; 32],
	pub seq: u64,
}

impl Aead {
	/// `key` is the 64-byte encryption key.
	pub fn new(key: &[u8], seq: u64) -> Self {
		Self { main: key[..32].try_into().unwrap(), len: key[32..64].try_into().unwrap(), seq }
	}
	fn nonce(&self) -> [u8; 8] {
		self.seq.to_be_bytes()
	}
	/// Encrypt a packet (length field and the rest) and append the tag.
	pub fn seal(&mut self, packet: &[u8]) -> Vec<u8> {
		let mut p = packet.to_vec();
		let (a, b) = p.split_at_mut(4);
		chacha_xor(&self.len, &self.nonce(), 0, a);
		chacha_xor(&self.main, &self.nonce(), 1, b);
		let tag = self.tag(&p);
		p.extend_from_slice(&tag);
		self.seq += 1;
		p
	}
	fn tag(&self, p: &[u8]) -> [u8; 16] {
		poly1305(&chacha_block(&self.main, &self.nonce(), 0)[..32], p)
	}
	pub fn peek_len(&self, b: &[u8]) -> u32 {
		let mut l = [b[0], b[1], b[2], b[3]];
		chacha_xor(&self.len, &self.nonce(), 0, &mut l);
		u32::from_be_bytes(l)
	}
	/// Decrypt a complete packet with tag.
	pub fn open(&mut self, b: &[u8]) -> Option<Vec<u8>> {
		let (p, t) = b.split_at(b.len() - 16);
		if self.tag(p) != t {
			return None;
		}
		let mut p = p.to_vec();
		let (x, y) = p.split_at_mut(4);
		chacha_xor(&self.len, &self.nonce(), 0, x);
		chacha_xor(&self.main, &self.nonce(), 1, y);
		self.seq += 1;
		Some(p)
	}
}

/// RFC 4253 section 7.2; the session identifier is the first exchange hash.
pub fn derive(secret: &[u8], hash: &[u8], letter: u8, blocks: usize) -> Vec<u8> {
	let mut k = vec![];
	put_mpint(&mut k, secret);
	let mut out: Vec<u8> = vec![];
	for i in 0..blocks {
		let mut m = k.clone();
		m.extend_from_slice(hash);
		if i == 0 {
			m.push(letter);
			m.extend_from_slice(hash);
		} else {
			m.extend_from_slice(&out);
		}
		out.extend_from_slice(&Sha256::digest(&m));
	}
	out
}

pub struct HashInputs<'a> {
	pub client_id: &'a [u8],
	pub server_id: &'a [u8],
	pub client_kexinit: &'a [u8],
	pub server_kexinit: &'a [u8],
	pub host_key: &'a [u8],
	pub client_key: &'a [u8],
	pub server_key: &'a [u8],
	pub secret: &'a [u8],
}

/// RFC 5656 section 4 / RFC 8731 section 3.1
pub fn exchange_hash_preimage(h: &HashInputs) -> Vec<u8> {
	let mut m = vec![];
	for s in [
		h.client_id,
		h.server_id,
		h.client_kexinit,
		h.server_kexinit,
		h.host_key,
		h.client_key,
		h.server_key,
	] {
		put_str(&mut m, s);
	}
	put_mpint(&mut m, h.secret);
	m
}

pub fn self_test() {
	// RFC 8439 section 2.5.2
	let key: Vec<u8> = vec![
		0x85, 0xd6, 0xbe, 0x78, 0x57, 0x55, 0x6d, 0x33, 0x7f, 0x44, 0x52, 0xfe, 0x42, 0xd5, 0x06,
		0xa8, 0x01, 0x03, 0x80, 0x8a, 0xfb, 0x0d, 0xb2, 0xfd, 0x4a, 0xbf, 0xf6, 0xaf, 0x41, 0x49,
		0xf5, 0x1b,
	];
	let t = poly1305(&key, b"Cryptographic Forum Research Group");
	assert_eq!(crate::util::hex(&t), "a8061dc1305136c6c22b8baf0c0127a9");
	// ChaCha20, all-zero key and nonce
	let b = chacha_block(&[0; 32], &[0; 8], 0);
	assert_eq!(crate::util::hex(&b[..16]), "76b8e0ada0f13d90405d6ae55386bd28");
	// RFC 8439 2.3.2 block 1 expressed with the original 64-bit counter layout
	let key: Vec<u8> = (0..32).collect();
	let b = chacha_block(
		&key[..].try_into().unwrap(),
		&[0, 0, 0, 0x4a, 0, 0, 0, 0],
		1 | (0x0900_0000u64 << 32),
	);
	assert_eq!(crate::util::hex(&b[..16]), "10f1e7e4d13b5915500fdd1fa32071c4");
}
