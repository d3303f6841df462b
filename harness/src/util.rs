//! Small shared pieces: hex bytes for replay files, position-coded content, decision tapes.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

/// Bytes which are written as a hex string in replay files.
#[derive(Clone, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Hex(pub Vec<u8>);

impl fmt::Debug for Hex {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "{}", hex_short(&self.0))
	}
}
impl Serialize for Hex {
	fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&hex(&self.0))
	}
}
impl<'de> Deserialize<'de> for Hex {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s = String::deserialize(d)?;
		let b = s.as_bytes();
		if b.len() % 2 != 0 {
			return Err(serde::de::Error::custom("odd hex"));
		}
		b.chunks(2)
			.map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap_or("x"), 16))
			.collect::<Result<Vec<_>, _>>()
			.map(Hex)
			.map_err(serde::de::Error::custom)
	}
}
impl std::ops::Deref for Hex {
	type Target = Vec<u8>;
	fn deref(&self) -> &Vec<u8> {
		&self.0
	}
}

pub fn hex(b: &[u8]) -> String {
	let mut s = String::with_capacity(b.len() * 2);
	for x in b {
		s.push_str(&format!("{:02x}", x));
	}
	s
}

pub fn hex_short(b: &[u8]) -> String {
	if b.len() <= 48 {
		format!("x\"{}\"", hex(b))
	} else {
		format!("x\"{}..\"({} bytes)", hex(&b[..48]), b.len())
	}
}

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
	z ^ (z >> 31)
}

/// Content in which every byte depends on its position and the owner of the stream, so that
/// losses, repeats, reorderings and mixing between streams are all visible.
/// Most streams have all bytes, some only letters and some only bytes that terminals and
/// text protocols treat specially.
pub fn content(owner: u64, from: usize, len: usize) -> Vec<u8> {
	const SPECIAL: &[u8; 16] = b"\0\x01\x02\x03\x04\x08\n\r\x11\x13\x1a\x1b~.\x7f\xff";
	let style = mix(owner ^ 0x5717_1e) % 8;
	(from..from + len)
		.map(|i| {
			let w = mix(owner.wrapping_mul(0x1_0000_0001).wrapping_add((i / 8) as u64));
			let b = (w >> (8 * (i % 8))) as u8;
			match style {
				0 => SPECIAL[usize::from(b % 16)],
				1 => b'a' + b % 26,
				_ => b,
			}
		})
		.collect()
}

/// Where two byte strings start to differ, for messages.
pub fn diff(got: &[u8], want: &[u8]) -> String {
	let i = got
		.iter()
		.zip(want)
		.position(|(a, b)| a != b)
		.unwrap_or(got.len().min(want.len()));
	let w = |b: &[u8]| hex_short(&b[i.min(b.len())..b.len().min(i + 16)]);
	format!(
		"lengths {} vs expected {}, first difference at {}: {} vs expected {}",
		got.len(),
		want.len(),
		i,
		w(got),
		w(want)
	)
}

/// A generated sequence of decisions. An exhausted tape is repeated (scrambled per lap);
/// an empty one always decides 0, which everywhere means the simplest behaviour.
#[derive(Clone, Debug)]
pub struct Tape {
	bytes: Vec<u8>,
	i: usize,
}
impl Tape {
	pub fn new(bytes: &[u8]) -> Self {
		Self { bytes: bytes.to_vec(), i: 0 }
	}
	pub fn next(&mut self) -> u8 {
		let n = self.bytes.len();
		if n == 0 {
			return 0;
		}
		let (lap, k) = (self.i / n, self.i % n);
		self.i += 1;
		if lap == 0 {
			self.bytes[k]
		} else {
			mix((lap as u64) << 32 ^ (k as u64) << 8 ^ u64::from(self.bytes[k])) as u8
		}
	}
	/// 0..n
	pub fn below(&mut self, n: usize) -> usize {
		if n <= 1 {
			return 0;
		}
		usize::from(self.next()) % n
	}
	pub fn is_empty(&self) -> bool {
		self.bytes.is_empty()
	}
}

#[macro_export]
macro_rules! ensure {
	($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}
