//! Reference description of the SSH messages (RFC 4250-4254, RFC 5656), written from the RFCs:
//! a table of field layouts with its own encoder and decoder.
use crate::util::Hex;
use serde::{Deserialize, Serialize};

/// Layout of a field.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F {
	Bool,
	U32,
	Str,
	Ascii,
	Utf8,
	Names,
	/// Everything that is left.
	Rest,
	/// 16 raw bytes
	Cookie,
	/// The reserved uint32 0
	Zero,
	/// A fixed string
	Lit(&'static str),
	LitBool(bool),
	/// A string that is not one of the authentication methods with a layout of their own
	OtherMethod,
	/// string { string name, string curve, string q } (3 values)
	Key,
	/// string { string name, string { mpint r, mpint s } } (3 values)
	Sig,
}
use F::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum V {
	B(bool),
	U(u32),
	S(Hex),
}

pub struct Kind {
	pub name: &'static str,
	pub num: u8,
	pub fields: &'static [F],
}
const fn k(name: &'static str, num: u8, fields: &'static [F]) -> Kind {
	Kind { name, num, fields }
}

pub const METHODS: [&str; 4] = ["none", "publickey", "password", "hostbased"];

/// Order matters only between kinds of the same number.
pub static MESSAGES: &[Kind] = &[
	k("disconnect", 1, &[U32, Str, Str]),
	k("ignore", 2, &[Str]),
	k("unimplemented", 3, &[U32]),
	k("debug", 4, &[Bool, Utf8, Str]),
	k("service_request", 5, &[Str]),
	k("service_accept", 6, &[Str]),
	k(
		"kexinit",
		20,
		&[
			Cookie, Names, Names, Names, Names, Names, Names, Names, Names, Names, Names, Bool, Zero,
		],
	),
	k("newkeys", 21, &[]),
	k("ecdh_init", 30, &[Str]),
	k("ecdh_reply", 31, &[Key, Str, Sig]),
	k("ua_none", 50, &[Str, Str, Lit("none")]),
	k("ua_pk_blob", 50, &[Str, Str, Lit("publickey"), LitBool(false), Str, Str]),
	k("ua_pk_signed", 50, &[Str, Str, Lit("publickey"), LitBool(true), Str, Str, Str]),
	k("ua_password", 50, &[Str, Str, Lit("password"), LitBool(false), Str]),
	k("ua_password_renew", 50, &[Str, Str, Lit("password"), LitBool(true), Str, Str]),
	k("ua_hostbased", 50, &[Str, Str, Lit("hostbased"), Str, Str, Ascii, Utf8, Str]),
	k("ua_other", 50, &[Str, Str, OtherMethod, Rest]),
	k("ua_failure", 51, &[Names, Bool]),
	k("ua_success", 52, &[]),
	k("ua_banner", 53, &[Str, Str]),
	k("ua_pk_ok", 60, &[Str, Str]),
	k("open", 90, &[Str, U32, U32, U32]),
	k("open_confirmation", 91, &[U32, U32, U32, U32, Rest]),
	k("open_failure", 92, &[U32, U32, Utf8, Str]),
	k("window_adjust", 93, &[U32, U32]),
	k("data", 94, &[U32, Str]),
	k("extended_data", 95, &[U32, U32, Str]),
	k("eof", 96, &[U32]),
	k("close", 97, &[U32]),
	k("request", 98, &[U32, Str, Bool, Rest]),
	k("success", 99, &[U32]),
	k("failure", 100, &[U32]),
];

/// The number is unused here: these are told apart by the request type.
pub static SESSION: &[Kind] = &[
	k("pty-req", 0, &[Str, U32, U32, U32, U32, Str]),
	k("x11-req", 0, &[Bool, Str, Str, U32]),
	k("env", 0, &[Str, Str]),
	k("shell", 0, &[]),
	k("exec", 0, &[Str]),
	k("subsystem", 0, &[Str]),
	k("window-change", 0, &[U32, U32, U32, U32]),
	k("xon-xoff", 0, &[Bool]),
	k("signal", 0, &[Str]),
	k("exit-status", 0, &[U32]),
	k("exit-signal", 0, &[Str, Bool, Utf8, Str]),
];

pub fn kind(name: &str) -> &'static Kind {
	MESSAGES
		.iter()
		.chain(SESSION)
		.find(|k| k.name == name)
		.unwrap_or_else(|| panic!("no kind {}", name))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct RMsg {
	pub kind: String,
	pub v: Vec<V>,
}

// ---- encoding ----

pub fn put_u32(o: &mut Vec<u8>, v: u32) {
	o.extend_from_slice(&[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]);
}
pub fn put_str(o: &mut Vec<u8>, s: &[u8]) {
	put_u32(o, s.len() as u32);
	o.extend_from_slice(s);
}
/// RFC 4251: a non-negative integer without unnecessary leading bytes and with a clear sign bit.
pub fn put_mpint(o: &mut Vec<u8>, s: &[u8]) {
	let mut s: Vec<u8> = s.iter().copied().skip_while(|b| *b == 0).collect();
	if s.first().map_or(false, |b| *b >= 128) {
		s.insert(0, 0);
	}
	put_str(o, &s);
}

pub fn strip0(s: &[u8]) -> &[u8] {
	let n = s.iter().take_while(|b| **b == 0).count();
	&s[n..]
}

pub fn encode_fields(fields: &[F], v: &[V]) -> Vec<u8> {
	let mut o = vec![];
	let mut v = v.iter();
	for f in fields {
		let mut s = || match v.next() {
			Some(V::S(s)) => s.clone(),
			x => panic!("expected string for {:?}, got {:?}", f, x),
		};
		match f {
			Str | Ascii | Utf8 | Names | OtherMethod => put_str(&mut o, &s()),
			Rest => o.extend_from_slice(&s()),
			Cookie => {
				let c = s();
				assert_eq!(c.len(), 16);
				o.extend_from_slice(&c)
			}
			Zero => put_u32(&mut o, 0),
			Lit(l) => put_str(&mut o, l.as_bytes()),
			LitBool(b) => o.push(*b as u8),
			Bool => match v.next() {
				Some(V::B(b)) => o.push(*b as u8),
				x => panic!("expected bool, got {:?}", x),
			},
			U32 => match v.next() {
				Some(V::U(n)) => put_u32(&mut o, *n),
				x => panic!("expected number, got {:?}", x),
			},
			Key => {
				let mut i = vec![];
				for _ in 0..3 {
					put_str(&mut i, &s());
				}
				put_str(&mut o, &i);
			}
			Sig => {
				let (mut i, mut j) = (vec![], vec![]);
				put_str(&mut i, &s());
				put_mpint(&mut j, &s());
				put_mpint(&mut j, &s());
				put_str(&mut i, &j);
				put_str(&mut o, &i);
			}
		}
	}
	assert!(v.next().is_none());
	o
}

impl RMsg {
	pub fn new(kind: &str, v: Vec<V>) -> Self {
		Self { kind: kind.into(), v }
	}
	pub fn kind(&self) -> &'static Kind {
		kind(&self.kind)
	}
	/// As a message
	pub fn encode(&self) -> Vec<u8> {
		let k = self.kind();
		let mut o = vec![k.num];
		o.extend(encode_fields(k.fields, &self.v));
		o
	}
	/// As a session request (the data only)
	pub fn encode_session(&self) -> Vec<u8> {
		encode_fields(self.kind().fields, &self.v)
	}
	pub fn u(&self, i: usize) -> u32 {
		match &self.v[i] {
			V::U(n) => *n,
			x => panic!("{:?}", x),
		}
	}
	pub fn s(&self, i: usize) -> &[u8] {
		match &self.v[i] {
			V::S(s) => s,
			x => panic!("{:?}", x),
		}
	}
	pub fn b(&self, i: usize) -> bool {
		match &self.v[i] {
			V::B(b) => *b,
			x => panic!("{:?}", x),
		}
	}
	/// The same with integers of signatures in one form.
	pub fn normalised(mut self) -> Self {
		if self.kind == "ecdh_reply" {
			for i in 5..7 {
				if let V::S(s) = &mut self.v[i] {
					*s = Hex(strip0(s).to_vec())
				}
			}
		}
		self
	}
}

pub fn s(b: &[u8]) -> V {
	V::S(Hex(b.to_vec()))
}

// ---- decoding ----

pub fn get_u32(b: &mut &[u8]) -> Option<u32> {
	if b.len() < 4 {
		return None;
	}
	let v = b[..4].iter().fold(0u32, |a, x| a << 8 | u32::from(*x));
	*b = &b[4..];
	Some(v)
}
pub fn get_str<'a>(b: &mut &'a [u8]) -> Option<&'a [u8]> {
	let mut c = *b;
	let l = get_u32(&mut c)? as u64;
	if c.len() as u64 >= l {
		let (x, y) = c.split_at(l as usize);
		*b = y;
		Some(x)
	} else {
		None
	}
}

pub fn is_names(b: &[u8]) -> bool {
	b.iter().all(|c| *c < 128) && (b.is_empty() || b.split(|c| *c == b',').all(|n| !n.is_empty()))
}

pub fn decode_fields(fields: &[F], mut b: &[u8]) -> Option<Vec<V>> {
	let b = &mut b;
	let mut v = vec![];
	for f in fields {
		let byte = |b: &mut &[u8]| {
			let x = *b.first()?;
			*b = &b[1..];
			Some(x)
		};
		match f {
			Bool => v.push(V::B(byte(b)? != 0)),
			LitBool(x) => {
				if (byte(b)? != 0) != *x {
					return None;
				}
			}
			U32 => v.push(V::U(get_u32(b)?)),
			Zero => {
				if get_u32(b)? != 0 {
					return None;
				}
			}
			Str => v.push(s(get_str(b)?)),
			Ascii => v.push(s(get_str(b).filter(|x| x.iter().all(|c| *c < 128))?)),
			Utf8 => v.push(s(get_str(b).filter(|x| std::str::from_utf8(x).is_ok())?)),
			Names => v.push(s(get_str(b).filter(|x| is_names(x))?)),
			Lit(l) => {
				if get_str(b)? != l.as_bytes() {
					return None;
				}
			}
			OtherMethod => v.push(s(
				get_str(b).filter(|x| METHODS.iter().all(|m| m.as_bytes() != *x))?
			)),
			Rest => v.push(s(std::mem::take(b))),
			Cookie => {
				if b.len() < 16 {
					return None;
				}
				v.push(s(&b[..16]));
				*b = &b[16..];
			}
			Key => {
				let mut i = get_str(b)?;
				for _ in 0..3 {
					v.push(s(get_str(&mut i)?));
				}
				if !i.is_empty() {
					return None;
				}
			}
			Sig => {
				let mut i = get_str(b)?;
				v.push(s(get_str(&mut i)?));
				let mut j = get_str(&mut i)?;
				v.push(s(get_str(&mut j)?));
				v.push(s(get_str(&mut j)?));
				if !i.is_empty() || !j.is_empty() {
					return None;
				}
			}
		}
	}
	b.is_empty().then(|| v)
}

pub fn decode(b: &[u8]) -> Option<RMsg> {
	let (n, b) = b.split_first()?;
	MESSAGES
		.iter()
		.filter(|k| k.num == *n)
		.find_map(|k| decode_fields(k.fields, b).map(|v| RMsg::new(k.name, v)))
}

pub fn decode_session(ty: &[u8], b: &[u8]) -> Option<RMsg> {
	let k = SESSION.iter().find(|k| k.name.as_bytes() == ty)?;
	decode_fields(k.fields, b).map(|v| RMsg::new(k.name, v))
}

pub const SIGNALS: [&str; 13] = [
	"ABRT", "ALRM", "FPE", "HUP", "ILL", "INT", "KILL", "PIPE", "QUIT", "SEGV", "TERM", "USR1",
	"USR2",
];
