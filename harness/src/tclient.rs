//! Transport layer of the reference SSH client, written from the RFCs, without any I/O.
use crate::{
	refcrypto::{derive, exchange_hash_preimage, Aead, HashInputs},
	rmsg::*,
	util::*,
};
use ecdsa::signature::Verifier;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};

pub const KEX: &str = "curve25519-sha256";
pub const HOSTKEY: &str = "ecdsa-sha2-nistp256";
pub const CIPHER: &str = "chacha20-poly1305@openssh.com";

/// A packet sent on a guess of the algorithms (RFC 4253 section 7).
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Guess {
	/// No packet follows
	None,
	/// The flag is set and the ECDH init packet follows as guessed.
	Right,
	/// The flag is set and this follows, to be ignored.
	Wrong(Hex),
}

/// Deviations from a good handshake. Items: 0 identification, 1 kexinit, 2 ECDH init, 3 newkeys.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Fault {
	None,
	/// Bytes instead of the identification line, including its end
	Line(Hex),
	/// Another ephemeral key
	Key(Hex),
	/// Another payload for an item
	Payload(u8, Hex),
	/// An additional packet before an item
	Insert(u8, Hex),
	Omit(u8),
	/// Items in another order
	Swap(u8, u8),
	/// Other values in the header of the packet: added to packet length, padding length
	Frame(u8, i32, i32),
	/// The client closes its side after so many bytes
	Cut(u32),
	/// The client sends so many bytes and then these
	Garbage(u32, Hex),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HsCfg {
	/// Lines before the identification
	pub preface: Vec<Hex>,
	pub ident: Hex,
	/// The ten name lists
	pub lists: Vec<Hex>,
	pub cookie: u64,
	pub guess: Guess,
	pub secret: Hex,
	/// How much is sent without waiting for the server
	pub early: u8,
	/// More padding than needed
	pub pad: u8,
	pub fault: Fault,
}

pub fn hx(s: &str) -> Hex {
	Hex(s.as_bytes().to_vec())
}

pub fn plain_lists() -> Vec<Hex> {
	[KEX, HOSTKEY, CIPHER, CIPHER, "none", "none", "none", "none", "", ""].iter().map(|s| hx(s)).collect()
}

impl HsCfg {
	pub fn plain(n: u64) -> Self {
		Self {
			preface: vec![],
			ident: hx("SSH-2.0-ref"),
			lists: plain_lists(),
			cookie: n,
			guess: Guess::None,
			secret: Hex(content(mix(n ^ 0x5ec), 0, 32)),
			early: 0,
			pad: 0,
			fault: Fault::None,
		}
	}
	pub fn public(&self) -> [u8; 32] {
		x25519(&self.secret, &BASE)
	}
	fn follows(&self) -> bool {
		!matches!(self.guess, Guess::None)
	}
	pub fn kexinit(&self) -> Vec<u8> {
		let mut v = vec![V::S(Hex(content(self.cookie, 0, 16)))];
		v.extend(self.lists.iter().cloned().map(V::S));
		v.push(V::B(self.follows()));
		RMsg::new("kexinit", v).encode()
	}
	/// What the client sends in the clear, in order, with the stage from which it may be sent.
	pub fn items(&self) -> Vec<(u8, Vec<u8>)> {
		let mut line = vec![];
		for l in &self.preface {
			line.extend_from_slice(l);
			line.extend_from_slice(b"\r\n");
		}
		match &self.fault {
			Fault::Line(l) => line.extend_from_slice(l),
			_ => {
				line.extend_from_slice(&self.ident);
				line.extend_from_slice(b"\r\n");
			}
		}
		let key = match &self.fault {
			Fault::Key(k) => k.to_vec(),
			_ => self.public().to_vec(),
		};
		let mut payloads = vec![
			self.kexinit(),
			RMsg::new("ecdh_init", vec![V::S(Hex(key))]).encode(),
			RMsg::new("newkeys", vec![]).encode(),
		];
		let frame = |i: u8, p: &[u8]| {
			let f = match self.fault {
				Fault::Frame(k, l, q) if k == i => (l, q),
				_ => (0, 0),
			};
			plain_packet(p, self.pad, f.0, f.1)
		};
		if let Fault::Payload(i @ 1..=3, p) = &self.fault {
			payloads[*i as usize - 1] = p.to_vec();
		}
		let stage = |i: u8| match i {
			0 | 1 if self.early >= 1 => 0,
			0 | 1 => 2,
			2 if self.early >= 2 => 0,
			2 => 2,
			_ if self.early >= 3 => 0,
			_ => 3,
		};
		let mut v = vec![(stage(0), line)];
		for i in 1..=3u8 {
			if let Fault::Insert(k, p) = &self.fault {
				if *k == i {
					v.push((stage(i), plain_packet(p, self.pad, 0, 0)));
				}
			}
			v.push((stage(i), frame(i, &payloads[i as usize - 1])));
			if let (1, Guess::Wrong(p)) = (i, &self.guess) {
				v.push((stage(1), plain_packet(p, self.pad, 0, 0)));
			}
		}
		match &self.fault {
			Fault::Omit(i) if (*i as usize) < v.len() => {
				v.remove(*i as usize);
			}
			Fault::Swap(i, j) if (*i as usize) < v.len() && (*j as usize) < v.len() => {
				let (a, b) = (v[*i as usize].1.clone(), v[*j as usize].1.clone());
				v[*i as usize].1 = b;
				v[*j as usize].1 = a;
			}
			_ => {}
		}
		v
	}
}

/// An unencrypted packet.
pub fn plain_packet(payload: &[u8], extra: u8, dlen: i32, dpad: i32) -> Vec<u8> {
	let mut pad = 8 - (5 + payload.len()) % 8;
	if pad < 4 {
		pad += 8;
	}
	while 5 + payload.len() + pad < 16 {
		pad += 8;
	}
	pad += (usize::from(extra) / 8 * 8).min((255 - pad) / 8 * 8);
	let mut p = vec![];
	put_u32(&mut p, ((1 + payload.len() + pad) as i64 + i64::from(dlen)) as u32);
	p.push((pad as i32 + dpad) as u8);
	p.extend_from_slice(payload);
	p.extend(content(7, 0, pad));
	p
}

/// The packet to encrypt: like an unencrypted one but the length field is not aligned.
pub fn enc_packet(payload: &[u8], extra: u8, dlen: i32, dpad: i32) -> Vec<u8> {
	let mut pad = 8 - (1 + payload.len()) % 8;
	if pad < 4 {
		pad += 8;
	}
	pad += (usize::from(extra) / 8 * 8).min((255 - pad) / 8 * 8);
	let mut p = vec![];
	put_u32(&mut p, ((1 + payload.len() + pad) as i64 + i64::from(dlen)) as u32);
	p.push((pad as i32 + dpad) as u8);
	p.extend_from_slice(payload);
	p.extend(content(9, 0, pad));
	p
}

const BASE: [u8; 32] = {
	let mut b = [0; 32];
	b[0] = 9;
	b
};
pub fn x25519(secret: &[u8], point: &[u8; 32]) -> [u8; 32] {
	let mut s = [0; 32];
	let n = secret.len().min(32);
	s[..n].copy_from_slice(&secret[..n]);
	x25519_dalek::x25519(s, *point)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Phase {
	Ident,
	KexInit,
	Reply,
	NewKeys,
	Enc,
}

#[derive(Clone, Default, Debug)]
pub struct HsInfo {
	pub server_line: Vec<u8>,
	pub server_kexinit: Vec<u8>,
	pub cookie: Vec<u8>,
	pub server_key: Vec<u8>,
	pub sid: Vec<u8>,
	pub secret: Vec<u8>,
	pub host_blob: Vec<u8>,
	pub got_newkeys: bool,
	pub got_reply: bool,
}

/// What a client expects of the server it connects to.
#[derive(Clone)]
pub struct Expect {
	pub ident: Vec<u8>,
	/// Uncompressed point; empty: whatever the server says
	pub host_point: Vec<u8>,
}

/// What somebody on the path does to the encrypted stream.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Tamper {
	/// Change a bit (offset from the start, or from the end if negative)
	Flip(i32, u8),
	/// Lose the end of the packet
	Truncate(u32),
	/// Lose bytes in the middle: from, how many
	Delete(u32, u8),
	Drop,
	Twice,
	/// Send an earlier packet again, before this one
	Replay(u16),
	/// Send an earlier packet instead of this one
	Replace(u16),
	/// Exchange with the next packet
	Swap,
	Insert(Hex),
	/// Add bytes at the end
	Append(Hex),
	/// A good message under keys of somebody else
	Foreign(u8),
	/// A packet of the server
	Reflect(u16),
	/// The same message without encryption
	Plain,
	/// The same message, sealed for another packet number
	Renumber(i8),
	/// The tag is zero
	ZeroTag,
}

pub struct Transport {
	/// Tampering with the encrypted packet of this number
	pub tamper: Option<(u32, Tamper)>,
	/// Nothing is sent from the encrypted packet of this number on
	pub stop_at: Option<u32>,
	/// The stream is not the client's anymore
	pub tampered: bool,
	sealed: Vec<Vec<u8>>,
	held: Option<Vec<u8>>,
	server_packets: Vec<Vec<u8>>,
	enc_sent: u32,
	pub cfg: HsCfg,
	expect: Expect,
	rx: Vec<u8>,
	pub phase: Phase,
	pub info: HsInfo,
	items: Vec<(u8, Vec<u8>)>,
	sent_items: usize,
	pub sent_packets: u64,
	rcvd_packets: u64,
	pub tx: Option<Aead>,
	rxa: Option<Aead>,
	keys: Option<(Vec<u8>, Vec<u8>)>,
	/// Bytes for the server
	pub out: Vec<u8>,
	pub sent_bytes: u64,
	/// Everything ever sent
	pub all: Vec<u8>,
	pub payloads: Vec<Vec<u8>>,
	pub err: Option<String>,
	/// The client has nothing more to say after its faulty handshake
	pub cut: bool,
}

impl Transport {
	pub fn new(cfg: HsCfg, expect: Expect) -> Self {
		let items = cfg.items();
		let mut s = Self {
			tamper: None,
			stop_at: None,
			tampered: false,
			sealed: vec![],
			held: None,
			server_packets: vec![],
			enc_sent: 0,
			cfg,
			expect,
			rx: vec![],
			phase: Phase::Ident,
			info: Default::default(),
			items,
			sent_items: 0,
			sent_packets: 0,
			rcvd_packets: 0,
			tx: None,
			rxa: None,
			keys: None,
			out: vec![],
			sent_bytes: 0,
			all: vec![],
			payloads: vec![],
			err: None,
			cut: false,
		};
		s.advance();
		s
	}

	fn stage(&self) -> u8 {
		match self.phase {
			Phase::Ident => 0,
			Phase::KexInit => 1,
			Phase::Reply => 2,
			_ => 3,
		}
	}

	fn push(&mut self, b: &[u8]) {
		if self.cut {
			return;
		}
		let mut b = b.to_vec();
		match &self.cfg.fault {
			Fault::Cut(n) => {
				let left = (u64::from(*n)).saturating_sub(self.sent_bytes);
				if (b.len() as u64) >= left {
					b.truncate(left as usize);
					self.cut = true;
				}
			}
			Fault::Garbage(n, g) => {
				let left = (u64::from(*n)).saturating_sub(self.sent_bytes);
				if (b.len() as u64) >= left {
					b.truncate(left as usize);
					b.extend_from_slice(g);
					self.cut = true;
				}
			}
			_ => {}
		}
		self.sent_bytes += b.len() as u64;
		self.out.extend_from_slice(&b);
		self.all.extend_from_slice(&b);
	}

	fn advance(&mut self) {
		while self.sent_items < self.items.len() && self.items[self.sent_items].0 <= self.stage() {
			let b = self.items[self.sent_items].1.clone();
			self.push(&b);
			if self.sent_items > 0 {
				self.sent_packets += 1;
			}
			self.sent_items += 1;
		}
		if self.sent_items == self.items.len() && self.tx.is_none() {
			if let Some((c2s, _)) = &self.keys {
				self.tx = Some(Aead::new(c2s, self.sent_packets));
			}
		}
	}

	/// Whether encrypted packets can be sent.
	pub fn ready(&self) -> bool {
		self.tx.is_some() && self.err.is_none() && !self.cut
	}

	pub fn established(&self) -> bool {
		self.phase == Phase::Enc && self.ready()
	}

	pub fn seal(&mut self, packet: &[u8]) -> Vec<u8> {
		self.tx.as_mut().expect("keys").seal(packet)
	}

	pub fn send(&mut self, payload: &[u8]) {
		let p = enc_packet(payload, self.cfg.pad, 0, 0);
		if self.tamper.is_none() && self.stop_at.is_none() {
			let b = self.seal(&p);
			return self.push(&b);
		}
		let k = self.enc_sent;
		self.enc_sent += 1;
		if self.stop_at.map_or(false, |n| k >= n) {
			self.tampered = true;
			return;
		}
		let b = self.seal(&p);
		self.sealed.push(b.clone());
		let t = match &self.tamper {
			Some((n, t)) if *n == k => t.clone(),
			_ => {
				self.push(&b);
				if let Some(h) = self.held.take() {
					self.push(&h);
				}
				return;
			}
		};
		self.tampered = true;
		let mut c = b.clone();
		let earlier = |i: u16| match k {
			0 => vec![0; 40],
			k => self.sealed[usize::from(i) % k as usize].clone(),
		};
		match t {
			Tamper::Flip(o, bit) => {
				let i = o.rem_euclid(c.len() as i32) as usize;
				c[i] ^= 1 << (bit % 8);
			}
			Tamper::Truncate(n) => c.truncate(n as usize % b.len()),
			Tamper::Delete(from, n) => {
				let from = from as usize % c.len();
				let to = (from + 1 + usize::from(n)).min(c.len());
				c.drain(from..to);
			}
			Tamper::Drop => c.clear(),
			Tamper::Twice => c.extend_from_slice(&b),
			Tamper::Replay(i) => c = [earlier(i), b].concat(),
			Tamper::Replace(i) => c = earlier(i),
			Tamper::Swap => {
				self.held = Some(b);
				c.clear();
			}
			Tamper::Insert(x) => c = [x.0, vec![0x55], b].concat(),
			Tamper::Append(x) => c.extend(x.0.into_iter().chain([0x66])),
			Tamper::Foreign(n) => {
				let seq = self.tx.as_ref().expect("keys").seq - 1;
				let d = derive(&self.info.secret, &self.info.sid, [b'D', b'A', b'B', b'E', b'F'][usize::from(n) % 5], 2);
				let key = if n % 2 == 0 { d } else { content(u64::from(n), 0, 64) };
				c = [Aead::new(&key, seq).seal(&p), b].concat();
			}
			Tamper::Reflect(i) => match self.server_packets.len() {
				0 => c.clear(),
				l => c = [self.server_packets[usize::from(i) % l].clone(), b].concat(),
			},
			Tamper::Plain => c = plain_packet(payload, 0, 0, 0),
			Tamper::Renumber(d) => {
				let (c2s, _) = self.keys.clone().expect("keys");
				let seq = self.tx.as_ref().expect("keys").seq - 1;
				let d = if d == 0 { 1 } else { i64::from(d) };
				c = Aead::new(&c2s, (seq as i64 + d).max(0) as u64).seal(&p);
				if c == b {
					c.clear();
				}
			}
			Tamper::ZeroTag => {
				let l = c.len();
				c[l - 16..].iter_mut().for_each(|x| *x = 0);
			}
		}
		self.push(&c);
	}

	pub fn send_raw(&mut self, b: &[u8]) {
		self.push(b);
	}

	pub fn on_bytes(&mut self, b: &[u8]) {
		self.rx.extend_from_slice(b);
		while self.err.is_none() {
			match self.step() {
				Ok(true) => self.advance(),
				Ok(false) => break,
				Err(e) => self.err = Some(e),
			}
		}
	}

	/// The packet to be tampered with was sent.
	pub fn tampered_in_packet(&self) -> bool {
		self.tamper.as_ref().map_or(false, |(n, _)| self.enc_sent > *n)
	}

	/// The whole clear-text part has been sent.
	pub fn sent_items_all(&self) -> bool {
		self.sent_items == self.items.len()
	}

	/// Bytes that are not a complete item yet.
	pub fn leftover(&self) -> usize {
		self.rx.len()
	}

	fn plain(&mut self) -> Result<Option<Vec<u8>>, String> {
		if self.rx.len() < 4 {
			return Ok(None);
		}
		let len = get_u32(&mut &self.rx[..]).unwrap() as usize;
		if len > 40000 {
			return Err(format!("packet of {} bytes", len));
		}
		if self.rx.len() < 4 + len {
			return Ok(None);
		}
		let p: Vec<u8> = self.rx.drain(..4 + len).collect();
		check_packet(&p, true)?;
		self.rcvd_packets += 1;
		let pad = usize::from(p[4]);
		Ok(Some(p[5..p.len() - pad].to_vec()))
	}

	fn step(&mut self) -> Result<bool, String> {
		match self.phase {
			Phase::Ident => {
				let end = match self.rx.windows(2).position(|w| w == b"\r\n") {
					Some(i) => i,
					None if self.rx.len() > 300 => return Err("no end of the identification".into()),
					None => return Ok(false),
				};
				let line: Vec<u8> = self.rx.drain(..end + 2).collect();
				self.info.server_line = line[..end].to_vec();
				if self.expect.ident.is_empty() && line.starts_with(b"SSH-2.0-") {
					self.expect.ident = self.info.server_line.clone();
				}
				if self.info.server_line != self.expect.ident {
					return Err(format!("server identification {}", diff(&line[..end], &self.expect.ident)));
				}
				self.phase = Phase::KexInit;
			}
			Phase::KexInit => {
				let p = match self.plain()? {
					Some(p) => p,
					None => return Ok(false),
				};
				let m = decode(&p)
					.filter(|m| m.kind == "kexinit")
					.ok_or_else(|| format!("not a kexinit: {}", hex_short(&p)))?;
				self.info.cookie = m.s(0).to_vec();
				for (i, want) in [(1, KEX), (2, HOSTKEY), (3, CIPHER), (4, CIPHER), (7, "none"), (8, "none")] {
					if !m.s(i).split(|c| *c == b',').any(|n| n == want.as_bytes()) {
						return Err(format!("server does not offer {}", want));
					}
				}
				if m.b(11) {
					return Err("server announces a guess".into());
				}
				self.info.server_kexinit = p;
				self.phase = Phase::Reply;
			}
			Phase::Reply => {
				let p = match self.plain()? {
					Some(p) => p,
					None => return Ok(false),
				};
				let m = decode(&p)
					.filter(|m| m.kind == "ecdh_reply")
					.ok_or_else(|| format!("not an ECDH reply: {}", hex_short(&p)))?;
				self.info.got_reply = true;
				if self.expect.host_point.is_empty() {
					self.expect.host_point = m.s(2).to_vec();
				}
				if m.s(0) != HOSTKEY.as_bytes() || m.s(1) != b"nistp256" || m.s(2) != &self.expect.host_point[..] {
					return Err("not the configured host key".into());
				}
				let mut blob = vec![];
				put_str(&mut blob, m.s(0));
				put_str(&mut blob, m.s(1));
				put_str(&mut blob, m.s(2));
				let q: [u8; 32] = m.s(3).try_into().map_err(|_| "server key has a wrong length".to_string())?;
				let secret = x25519(&self.cfg.secret, &q);
				let client_id = self.cfg.ident.to_vec();
				let pre = exchange_hash_preimage(&HashInputs {
					client_id: &client_id,
					server_id: &self.expect.ident,
					client_kexinit: &self.cfg.kexinit(),
					server_kexinit: &self.info.server_kexinit,
					host_key: &blob,
					client_key: &self.cfg.public(),
					server_key: &q,
					secret: &secret,
				});
				let h = Sha256::digest(&pre);
				if m.s(4) != HOSTKEY.as_bytes() {
					return Err("signature of another algorithm".into());
				}
				verify(&self.expect.host_point, &h, m.s(5), m.s(6))?;
				self.info.server_key = q.to_vec();
				self.info.sid = h.to_vec();
				self.info.secret = secret.to_vec();
				self.info.host_blob = blob;
				self.keys = Some((derive(&secret, &h, b'C', 2), derive(&secret, &h, b'D', 2)));
				self.phase = Phase::NewKeys;
			}
			Phase::NewKeys => {
				let p = match self.plain()? {
					Some(p) => p,
					None => return Ok(false),
				};
				if p != [21] {
					return Err(format!("not a newkeys: {}", hex_short(&p)));
				}
				self.info.got_newkeys = true;
				let k = &self.keys.as_ref().expect("keys").1;
				self.rxa = Some(Aead::new(k, self.rcvd_packets));
				self.phase = Phase::Enc;
			}
			Phase::Enc => {
				if self.rx.len() < 4 {
					return Ok(false);
				}
				let a = self.rxa.as_mut().expect("keys");
				let len = a.peek_len(&self.rx[..4]) as usize;
				if len > 40000 {
					return Err(format!("packet {}: length decrypts to {}", a.seq, len));
				}
				if self.rx.len() < 4 + len + 16 {
					return Ok(false);
				}
				let p: Vec<u8> = self.rx.drain(..4 + len + 16).collect();
				if self.tamper.is_some() {
					self.server_packets.push(p.clone());
				}
				let seq = a.seq;
				let p = a.open(&p).ok_or_else(|| format!("packet {} is not authentic", seq))?;
				check_packet(&p, false).map_err(|e| format!("packet {}: {}", seq, e))?;
				let pad = usize::from(p[4]);
				self.payloads.push(p[5..p.len() - pad].to_vec());
			}
		}
		Ok(true)
	}
}

fn check_packet(p: &[u8], with_len: bool) -> Result<(), String> {
	if p.len() < 5 {
		return Err("packet too short".into());
	}
	let n = if with_len { p.len() } else { p.len() - 4 };
	let pad = usize::from(p[4]);
	if n % 8 != 0 {
		return Err(format!("packet of {} bytes is not aligned", n));
	}
	if pad < 4 || 5 + pad > p.len() {
		return Err(format!("padding of {} in {} bytes", pad, p.len()));
	}
	Ok(())
}

fn verify(point: &[u8], h: &[u8], r: &[u8], s: &[u8]) -> Result<(), String> {
	let fix = |x: &[u8]| -> Result<[u8; 32], String> {
		if x.first().map_or(false, |b| *b >= 128) {
			return Err("negative integer in the signature".into());
		}
		let x = strip0(x);
		if x.len() > 32 {
			return Err("integer too large".into());
		}
		let mut b = [0; 32];
		b[32 - x.len()..].copy_from_slice(x);
		Ok(b)
	};
	let key = p256::ecdsa::VerifyingKey::from_sec1_bytes(point).map_err(|_| "bad point".to_string())?;
	let sig = p256::ecdsa::Signature::from_scalars(fix(r)?, fix(s)?).map_err(|_| "bad signature".to_string())?;
	key.verify(h, &sig)
		.map_err(|_| "the signature is not the host key's over the exchange hash".to_string())
}

// ---------------------------------------------------------------- what a server has to make of it

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Judgement {
	/// Completed after so many bytes of the clear-text stream
	Accept,
	/// Must not be completed; `reply` says whether the ECDH init was still acceptable
	Reject { why: &'static str, reply: bool },
	/// The client is not finished
	Incomplete { reply: bool },
	/// Nothing is specified for this
	Unspecified,
}

/// The reference handshake acceptor: judges the clear-text bytes of a client.
pub fn judge_stream(b: &[u8], eof: bool) -> (Judgement, Vec<u8>) {
	use Judgement::*;
	let mut ident = vec![];
	let inc = |reply| if eof { Reject { why: "stream ends", reply } } else { Incomplete { reply } };
	// identification
	let mut i = 0;
	loop {
		let rest = &b[i..];
		if rest.starts_with(b"SSH-") {
			break;
		}
		match rest.windows(2).position(|w| w == b"\r\n") {
			Some(k) => i += k + 2,
			None => return (inc(false), ident),
		}
	}
	let rest = &b[i..];
	if rest.len() < 8 {
		return (inc(false), ident);
	}
	if &rest[..8] != b"SSH-2.0-" {
		return (Reject { why: "version", reply: false }, ident);
	}
	let k = match rest.windows(2).position(|w| w == b"\r\n") {
		Some(k) => k,
		None if rest.len() > 255 => return (Reject { why: "long identification", reply: false }, ident),
		None => return (inc(false), ident),
	};
	if k > 253 {
		return (Reject { why: "long identification", reply: false }, ident);
	}
	ident = rest[..k].to_vec();
	let mut rest = &rest[k + 2..];
	// packets
	let next = |rest: &mut &[u8], reply: bool| -> Result<Vec<u8>, Judgement> {
		let mut r = *rest;
		let len = match get_u32(&mut r) {
			Some(l) => l as usize,
			None => return Err(inc(reply)),
		};
		if len > 1 << 17 {
			return Err(Reject { why: "packet too large", reply });
		}
		if len > 34996 {
			return Err(Unspecified);
		}
		if len < 8 {
			return Err(Reject { why: "packet too small", reply });
		}
		if r.len() < len {
			return Err(inc(reply));
		}
		if (len + 4) % 8 != 0 {
			return Err(Reject { why: "misaligned packet", reply });
		}
		let pad = usize::from(r[0]);
		if pad + 1 > len {
			return Err(Reject { why: "padding does not fit", reply });
		}
		if pad < 4 {
			return Err(Unspecified);
		}
		let p = r[1..len - pad].to_vec();
		*rest = &r[len..];
		Ok(p)
	};
	let soft = |p: &[u8]| matches!(p.first(), Some(2..=4));
	macro_rules! next {
		($r:expr) => {
			match next(&mut rest, $r) {
				Ok(p) => p,
				Err(j) => return (j, ident),
			}
		};
	}
	let p = next!(false);
	if soft(&p) {
		return (Unspecified, ident);
	}
	let m = match decode(&p).filter(|m| m.kind == "kexinit") {
		Some(m) => m,
		None => return (Reject { why: "not a kexinit", reply: false }, ident),
	};
	let has = |i: usize, n: &str| m.s(i).split(|c| *c == b',').any(|x| x == n.as_bytes());
	let first = |i: usize, n: &str| m.s(i).split(|c| *c == b',').next() == Some(n.as_bytes());
	// The ciphers need no MAC; compression has to be "none".
	let ciphers = has(3, CIPHER) && has(4, CIPHER);
	let compression = has(7, "none") && has(8, "none");
	if !has(1, KEX) || !has(2, HOSTKEY) || !ciphers || !compression {
		return (Reject { why: "no common algorithm", reply: false }, ident);
	}
	if m.b(11) && !(first(1, KEX) && first(2, HOSTKEY)) {
		next!(false);
	}
	let p = next!(false);
	if soft(&p) {
		return (Unspecified, ident);
	}
	let m = match decode(&p).filter(|m| m.kind == "ecdh_init") {
		Some(m) => m,
		None => return (Reject { why: "not an ECDH init", reply: false }, ident),
	};
	match <[u8; 32]>::try_from(m.s(0)) {
		Err(_) => return (Reject { why: "key length", reply: false }, ident),
		Ok(k) => {
			// All-zero for every secret if and only if it is for this one (multiples of 8).
			if x25519(&[8; 32], &k) == [0; 32] {
				return (Reject { why: "all-zero secret", reply: false }, ident);
			}
		}
	}
	let p = next!(true);
	if soft(&p) {
		return (Unspecified, ident);
	}
	if p != [21] {
		return (Reject { why: "not a newkeys", reply: true }, ident);
	}
	(Accept, ident)
}
