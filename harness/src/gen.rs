//! Generators shared between properties.
use crate::rmsg::*;
use crate::util::{content, Hex};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::Union;

/// Lengths around every limit that appears in the code base or the protocol.
pub fn boundary_len() -> BoxedStrategy<usize> {
	prop_oneof![
		// Around powers of two
		8 => (0u32..13, -1i32..=1).prop_map(|(k, d)| ((1i32 << k) + d) as usize),
		1 => prop_oneof![Just(20usize), Just(24), Just(40), Just(48), Just(64), Just(96), Just(100), Just(104), Just(192), Just(200)],
		1 => prop_oneof![Just(253usize), Just(254), Just(1000), Just(1400), Just(1500), Just(3000)],
		1 => 0usize..4200,
	]
	.boxed()
}

pub fn huge_len() -> BoxedStrategy<usize> {
	prop_oneof![
		4 => (13u32..17, -1i32..=1).prop_map(|(k, d)| ((1i32 << k) + d) as usize),
		1 => prop_oneof![Just(10_000usize), Just(34_000), Just(35_000), Just(70_000)],
		2 => 4200usize..70_000,
	]
	.boxed()
}

/// Strings that mean something to SSH.
pub fn word() -> BoxedStrategy<Hex> {
	proptest::sample::select(
		&[
			"ssh-userauth", "ssh-connection", "none", "password", "publickey", "hostbased", "session", "direct-tcpip", "forwarded-tcpip", "x11",
			"shell", "exec", "subsystem", "env", "pty-req", "x11-req", "signal", "exit-status", "exit-signal", "window-change", "xon-xoff", "eow@openssh.com",
			"keepalive@openssh.com", "sftp", "xterm", "LANG", "en", "en-US", "root", "user", "ssh-ed25519", "ssh-rsa", "ecdsa-sha2-nistp256", "nistp256",
			"curve25519-sha256", "chacha20-poly1305@openssh.com", "SSH-2.0-x", "MIT-MAGIC-COOKIE-1", "TERM", "HUP", "bye", "a", "\0", "\0\0\0\0", "\0\0\0\x01a",
		][..],
	)
	.prop_map(|s| Hex(s.as_bytes().to_vec()))
	.boxed()
}

fn patterned(l: BoxedStrategy<usize>) -> BoxedStrategy<Hex> {
	(l, any::<u8>())
		.prop_map(|(l, s)| Hex(content(u64::from(s), 0, l)))
		.boxed()
}

/// Any byte string: mostly short, with boundary and huge lengths.
pub fn bytes() -> BoxedStrategy<Hex> {
	prop_oneof![
		2 => Just(Hex(vec![])),
		12 => vec(any::<u8>(), 1..24).prop_map(Hex),
		2 => vec(any::<u8>(), 24..300).prop_map(Hex),
		1 => vec(prop_oneof![Just(0u8), Just(255), Just(b','), Just(b' '), Just(b'\n'), Just(b'\r')], 0..12).prop_map(Hex),
		2 => patterned(boundary_len()),
		1 => word(),
	]
	.boxed()
}

pub fn bytes_or_huge() -> BoxedStrategy<Hex> {
	prop_oneof![60 => bytes(), 1 => patterned(huge_len())].boxed()
}

pub fn number() -> BoxedStrategy<u32> {
	prop_oneof![
		4 => any::<u32>(),
		2 => 0u32..6,
		1 => (0u32..33, -1i64..=1).prop_map(|(k, d)| ((1i64 << k) + d) as u32),
	]
	.boxed()
}

pub fn utf8() -> BoxedStrategy<Hex> {
	prop_oneof![
		1 => Just(String::new()),
		4 => vec(any::<char>(), 1..16).prop_map(|v| v.into_iter().collect()),
		2 => vec(0x20u8..0x7f, 0..40).prop_map(|v| String::from_utf8(v).unwrap()),
		1 => (vec(any::<char>(), 1..3), 1usize..200).prop_map(|(v, n)| v.into_iter().collect::<String>().repeat(n)),
	]
	.prop_map(|s: String| Hex(s.into_bytes()))
	.boxed()
}

pub fn ascii() -> BoxedStrategy<Hex> {
	prop_oneof![
		1 => Just(vec![]),
		4 => vec(0u8..128, 1..30),
		1 => (boundary_len(), 0u8..128).prop_map(|(n, c)| vec![c; n]),
	]
	.prop_map(Hex)
	.boxed()
}

pub fn name() -> BoxedStrategy<Vec<u8>> {
	prop_oneof![
		6 => vec((0u8..127).prop_map(|c| if c >= b',' { c + 1 } else { c }), 1..20),
		3 => vec(prop_oneof![0x21u8..0x2c, 0x2du8..0x7f], 1..40),
		1 => (1usize..300).prop_map(|n| vec![b'x'; n]),
	]
	.boxed()
}

pub fn names() -> BoxedStrategy<Hex> {
	prop_oneof![
		1 => Just(vec![]),
		4 => vec(name(), 1..2),
		5 => vec(name(), 0..6),
		1 => vec(name(), 6..40),
	]
	.prop_map(|v| Hex(v.join(&b',')))
	.boxed()
}

pub fn mpint() -> BoxedStrategy<Hex> {
	prop_oneof![
		1 => Just(vec![]),
		3 => vec(any::<u8>(), 32..33),
		2 => (0usize..6, vec(any::<u8>(), 0..34)).prop_map(|(z, v)| [vec![0; z], v].concat()),
		1 => (0usize..6, 0x80u8..=255, vec(any::<u8>(), 0..33)).prop_map(|(z, h, v)| [vec![0; z], vec![h], v].concat()),
		1 => (0usize..40).prop_map(|z| vec![0; z]),
		1 => vec(any::<u8>(), 33..300),
	]
	.prop_map(Hex)
	.boxed()
}

pub fn secret32() -> BoxedStrategy<Hex> {
	prop_oneof![
		4 => vec(any::<u8>(), 32..33),
		2 => (1usize..33, vec(any::<u8>(), 32..33)).prop_map(|(z, mut v)| { v[..z].iter_mut().for_each(|b| *b = 0); v }),
		2 => (0usize..32, 0x80u8..=255, vec(any::<u8>(), 32..33)).prop_map(|(z, h, mut v)| { v[..z].iter_mut().for_each(|b| *b = 0); v[z] = h; v }),
		1 => (0usize..32, 1u8..0x80, vec(any::<u8>(), 32..33)).prop_map(|(z, h, mut v)| { v[..z].iter_mut().for_each(|b| *b = 0); v[z] = h; v }),
	]
	.prop_map(Hex)
	.boxed()
}

fn sv(x: BoxedStrategy<Hex>) -> BoxedStrategy<Vec<V>> {
	x.prop_map(|h| vec![V::S(h)]).boxed()
}

pub fn field(f: F, str_: &BoxedStrategy<Hex>) -> BoxedStrategy<Vec<V>> {
	match f {
		F::Bool => any::<bool>().prop_map(|b| vec![V::B(b)]).boxed(),
		F::U32 => number().prop_map(|n| vec![V::U(n)]).boxed(),
		F::Str | F::Rest => sv(str_.clone()),
		F::Ascii => sv(ascii()),
		F::Utf8 => sv(utf8()),
		F::Names => sv(names()),
		F::Cookie => sv(vec(any::<u8>(), 16..17).prop_map(Hex).boxed()),
		F::Zero | F::Lit(_) | F::LitBool(_) => Just(vec![]).boxed(),
		F::OtherMethod => sv(prop_oneof![
			2 => str_.clone(),
			1 => proptest::sample::select(&["keyboard-interactive", "non", "nonee", "publickey ", "PASSWORD", ""][..]).prop_map(|b| Hex(b.as_bytes().to_vec())),
		]
		.prop_map(|h| if METHODS.iter().any(|m| m.as_bytes() == &h[..]) { Hex(b"other".to_vec()) } else { h })
		.boxed()),
		F::Key => vec(str_.clone().prop_map(V::S), 3..4).boxed(),
		F::Sig => (str_.clone(), mpint(), mpint())
			.prop_map(|(a, b, c)| vec![V::S(a), V::S(b), V::S(c)])
			.boxed(),
	}
}

pub fn of_kind(k: &'static Kind, str_: &BoxedStrategy<Hex>) -> BoxedStrategy<RMsg> {
	let fields: Vec<BoxedStrategy<Vec<V>>> = k
		.fields
		.iter()
		.map(|f| match (k.name, f) {
			("signal", F::Str) => signal_field(),
			("exit-signal", F::Str) => prop_oneof![signal_field(), sv(bytes())].boxed(),
			_ => field(*f, str_),
		})
		.collect();
	// Sometimes two fields are the same, and all are empty.
	(fields, 0u8..40, any::<u8>(), any::<u8>())
		.prop_map(move |(mut v, how, a, b)| {
			let any = |i: usize| k.fields[i] == F::Str && !matches!(k.name, "signal" | "exit-signal");
			if v.len() > 1 && how < 3 {
				let (a, b) = (usize::from(a) % v.len(), usize::from(b) % v.len());
				if any(a) && any(b) || k.fields[a] == k.fields[b] && k.fields[a] != F::OtherMethod {
					v[b] = v[a].clone();
				}
			} else if how == 3 {
				(0..v.len()).filter(|i| any(*i)).for_each(|i| v[i] = vec![V::S(Hex(vec![]))]);
			}
			RMsg::new(k.name, v.concat())
		})
		.boxed()
}

fn signal_field() -> BoxedStrategy<Vec<V>> {
	sv(prop_oneof![
		3 => proptest::sample::select(&SIGNALS[..]).prop_map(|x| Hex(x.as_bytes().to_vec())),
		1 => proptest::sample::select(&["SIGHUP", "hup", "USR", "USR3", "KILLL", ""][..]).prop_map(|x| Hex(x.as_bytes().to_vec())),
		1 => bytes(),
	]
	.boxed())
}

/// Any message of a kind of the table.
pub fn message(table: &'static [Kind]) -> BoxedStrategy<RMsg> {
	let st = bytes_or_huge();
	Union::new(table.iter().map(|k| of_kind(k, &st))).boxed()
}

pub fn tape(max: usize) -> BoxedStrategy<Hex> {
	prop_oneof![
		1 => Just(Hex(vec![])),
		3 => vec(any::<u8>(), 1..max.max(2)).prop_map(Hex),
		1 => vec(prop_oneof![Just(0u8), Just(1), Just(2), Just(255)], 1..max.max(2)).prop_map(Hex),
	]
	.boxed()
}
