//! C01-C09: the protocol core (encodings, framing, cipher, key derivation).
use crate::{
	gen,
	refcrypto::{self as rc, Aead},
	rmsg::*,
	rnora::*,
	runner::*,
	util::*,
};
use nora_ssh_core::{
	cipher::{ChaCha20Poly1305, Cipher},
	data::{self, AsciiStr, NameList},
	identifier::Identifier,
	key_exchange::{Direction, KeyMaterial},
	message::{
		channel::session::SessionRequest,
		key_exchange::ecdh::{Key, KeyBlob, KeyExchangeDigest},
		userauth::format_sign_data,
		Message, ServiceAccept, ServiceRequest,
	},
	packet::{BlockSize, Packet},
};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256, Sha512};



// ------------------------------------------------------------------ C01

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum EncCase {
	Msg(RMsg),
	Session(RMsg),
	Sign { sid: Hex, user: Hex, service: Hex, algorithm: Hex, blob: Hex },
}

fn nontrivial_msg(m: &RMsg) -> bool {
	m.v.iter().any(|v| match v {
		V::S(s) => !s.is_empty(),
		V::U(n) => *n != 0,
		V::B(b) => *b,
	})
}

fn enc_strategy() -> BoxedStrategy<EncCase> {
	prop_oneof![
		5 => gen::message(MESSAGES).prop_map(EncCase::Msg),
		3 => gen::message(SESSION).prop_map(EncCase::Session),
		1 => (gen::bytes(), gen::bytes_or_huge(), gen::bytes(), gen::bytes(), gen::bytes_or_huge())
			.prop_map(|(sid, user, service, algorithm, blob)| EncCase::Sign { sid, user, service, algorithm, blob }),
	]
	.boxed()
}

/// Encode with the library into `buf`; the length of the encoding, or `None` if refused.
fn lib_encode(c: &EncCase, buf: &mut [u8]) -> Result<Option<(Vec<u8>, usize, usize)>, String> {
	let total = buf.len();
	Ok(match c {
		EncCase::Msg(m) => with_nora(m, |x| {
			no_panic(|| x.serialize(buf).map(|(a, b)| (a.to_vec(), a.len(), b.len())))
		})??,
		EncCase::Session(m) => {
			let r = to_session(m);
			no_panic(|| r.serialize(buf).map(|(t, l)| (t.to_vec(), l, total.wrapping_sub(l))))?
		}
		EncCase::Sign { sid, user, service, algorithm, blob } => no_panic(|| {
			format_sign_data(buf, sid, user, service, algorithm, blob)
				.map(|r| (r.to_vec(), r.len(), total.wrapping_sub(r.len())))
		})?,
	})
}

fn ref_encode(c: &EncCase) -> Vec<u8> {
	match c {
		EncCase::Msg(m) => m.encode(),
		EncCase::Session(m) => m.encode_session(),
		EncCase::Sign { sid, user, service, algorithm, blob } => {
			// RFC 4252 section 7
			let mut o = vec![];
			put_str(&mut o, sid);
			o.push(50);
			put_str(&mut o, user);
			put_str(&mut o, service);
			put_str(&mut o, b"publickey");
			o.push(1);
			put_str(&mut o, algorithm);
			put_str(&mut o, blob);
			o
		}
	}
}

pub struct C01;
impl Prop for C01 {
	type Case = EncCase;
	const ID: &'static str = "C01";
	fn rule(&self) -> &'static str {
		"a message or session request of a kind drawn uniformly from the RFC table with generated fields (or the data signed for public-key authentication); encoded by the library and by the reference encoder, decoded again. Non-trivial: at least one field is not its zero value."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(3_000_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<EncCase> {
		enc_strategy()
	}
	fn check(&self, c: &EncCase) -> Verdict {
		let want = ref_encode(c);
		let mut buf = vec![0xa5u8; want.len() + 19];
		let (first, l, _) = lib_encode(c, &mut buf)?.ok_or("encoding refused although the buffer is large enough")?;
		ensure!(l <= buf.len(), "reported length {} exceeds the buffer", l);
		ensure!(buf[..l] == want[..], "encoding differs from the RFC layout: {}", diff(&buf[..l], &want));
		let mut o = Obs::default();
		match c {
			EncCase::Msg(m) => {
				let msg = no_panic(|| Message::parse(&want).map_err(|e| format!("{:?}", e)))?
					.map_err(|e| format!("own encoding of {} refused: {}", m.kind, e))?;
				check_accessors(&msg, &m.kind)?;
				check_conversions(&want, &m.kind)?;
				let got = from_nora(msg).normalised();
				ensure!(got == m.clone().normalised(), "decoded to {:?} instead of {:?}", got, m);
				o.nontrivial = nontrivial_msg(m);
				o.labels.push(m.kind().name);
			}
			EncCase::Session(m) => {
				ensure!(first == m.kind.as_bytes(), "session request type {:?} instead of {:?}", first, m.kind);
				let r = no_panic(|| SessionRequest::parse(&first, &want).map_err(|e| format!("{:?}", e)))?
					.map_err(|e| format!("own encoding of {} refused: {}", m.kind, e))?;
				let got = from_session(r);
				ensure!(got == *m, "decoded to {:?} instead of {:?}", got, m);
				o.nontrivial = nontrivial_msg(m);
				o.labels.push(m.kind().name);
			}
			EncCase::Sign { .. } => {
				ensure!(first == want, "signed data differs: {}", diff(&first, &want));
				o.nontrivial = true;
				o.labels.push("signed data");
			}
		}
		o.label(want.len() > 4096, "long (> 4096 bytes)");
		Ok(o)
	}
}

/// The typed accessors give a value for exactly the right kind.
fn check_accessors(m: &Message<'_>, kind: &str) -> Result<(), String> {
	let ua = m.as_user_auth();
	let ch = m.as_channel();
	let got = [
		("disconnect", m.as_disconnect().is_some()),
		("kexinit", m.as_kex_init().is_some()),
		("ecdh_init", m.as_kex_ecdh_init().is_some()),
		("newkeys", m.as_new_keys().is_some()),
		("service_request", m.as_service_request().is_some()),
		("service_accept", m.as_service_accept().is_some()),
		("ua_failure", ua.map_or(false, |u| u.as_failure().is_some())),
		("ua_success", ua.map_or(false, |u| u.as_success().is_some())),
		("ua_banner", ua.map_or(false, |u| u.as_banner().is_some())),
		("ua_pk_ok", ua.map_or(false, |u| u.as_public_key_ok().is_some())),
		("open", ch.map_or(false, |u| u.as_open().is_some())),
		("open_confirmation", ch.map_or(false, |u| u.as_open_confirmation().is_some())),
		("data", ch.map_or(false, |u| u.as_data().is_some())),
		("close", ch.map_or(false, |u| u.as_close().is_some())),
		("request", ch.map_or(false, |u| u.as_request().is_some())),
		("success", ch.map_or(false, |u| u.as_success().is_some())),
		("failure", ch.map_or(false, |u| u.as_failure().is_some())),
	];
	for (k, is) in got {
		ensure!(is == (k == kind), "accessor for {} says {} for a {}", k, is, kind);
	}
	let num = crate::rmsg::kind(kind).num;
	ensure!(ua.is_some() == (50..80).contains(&num), "as_user_auth is wrong for {}", kind);
	ensure!(ch.is_some() == (90..128).contains(&num), "as_channel is wrong for {}", kind);
	Ok(())
}

/// Taking the message of a kind out and making a message of it again changes nothing.
fn check_conversions(data: &[u8], kind: &str) -> Result<(), String> {
	let parse = || Message::parse(data).map_err(|e| format!("{:?}", e));
	let want = from_nora(parse()?);
	let num = crate::rmsg::kind(kind).num;
	macro_rules! conv {
		($name:expr, $outer:ident, $into:ident, $is:expr) => {{
			let v = $outer(parse()?).and_then(|m| m.$into());
			ensure!(v.is_some() == $is, "taking out {} of a {}: {}", $name, kind, v.is_some());
			if let Some(v) = v {
				let got = from_nora($outer::back(v.into()));
				ensure!(got == want, "converted to {:?} instead of {:?}", got, want);
			}
		}};
	}
	mod whole {
		pub fn back(m: super::Message<'_>) -> super::Message<'_> {
			m
		}
	}
	fn whole(m: Message<'_>) -> Option<Message<'_>> {
		Some(m)
	}
	mod auth {
		pub fn back(m: nora_ssh_core::message::UserAuth<'_>) -> super::Message<'_> {
			m.into()
		}
	}
	fn auth(m: Message<'_>) -> Option<nora_ssh_core::message::UserAuth<'_>> {
		m.into_user_auth()
	}
	mod chan {
		pub fn back(m: nora_ssh_core::message::Channel<'_>) -> super::Message<'_> {
			m.into()
		}
	}
	fn chan(m: Message<'_>) -> Option<nora_ssh_core::message::Channel<'_>> {
		m.into_channel()
	}
	conv!("disconnect", whole, into_disconnect, kind == "disconnect");
	conv!("kexinit", whole, into_kex_init, kind == "kexinit");
	conv!("ecdh_init", whole, into_kex_ecdh_init, kind == "ecdh_init");
	conv!("newkeys", whole, into_new_keys, kind == "newkeys");
	conv!("service_request", whole, into_service_request, kind == "service_request");
	conv!("service_accept", whole, into_service_accept, kind == "service_accept");
	conv!("user authentication", whole, into_user_auth, (50..80).contains(&num));
	conv!("channel", whole, into_channel, (90..128).contains(&num));
	conv!("ua_request", auth, into_request, num == 50);
	conv!("ua_failure", auth, into_failure, num == 51);
	conv!("ua_success", auth, into_success, num == 52);
	conv!("ua_banner", auth, into_banner, num == 53);
	conv!("ua_pk_ok", auth, into_public_key_ok, num == 60);
	conv!("open", chan, into_open, kind == "open");
	conv!("open_confirmation", chan, into_open_confirmation, kind == "open_confirmation");
	conv!("data", chan, into_data, kind == "data");
	conv!("close", chan, into_close, kind == "close");
	conv!("request", chan, into_request, kind == "request");
	conv!("success", chan, into_success, kind == "success");
	conv!("failure", chan, into_failure, kind == "failure");
	if num == 5 || num == 6 {
		let name = &data[5..];
		let text = std::str::from_utf8(name).ok();
		let mut made: Vec<Message<'_>> = vec![];
		if num == 5 {
			made.push(ServiceRequest::from(name).into());
			made.extend(text.map(|t| ServiceRequest::from(t).into()));
		} else {
			made.push(ServiceAccept::from(name).into());
			made.extend(text.map(|t| ServiceAccept::from(t).into()));
		}
		for m in made {
			let got = from_nora(m);
			ensure!(got == want, "made {:?} instead of {:?}", got, want);
		}
	}
	Ok(())
}

// ------------------------------------------------------------------ C02

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum DecCase {
	Msg(Hex),
	Session(Hex, Hex),
	Str(Hex),
}

#[derive(Clone, Debug)]
enum Mutation {
	Truncate(usize),
	Extend(Vec<u8>),
	Set(usize, u8),
	Flip(usize, u8),
	/// Overwrite the 32-bit number at a position
	Number(usize, u32),
	/// Add to the 32-bit number at a position
	Add(usize, i32),
	Remove(usize, usize),
	Double(usize, usize),
}

fn mutation() -> BoxedStrategy<Mutation> {
	use Mutation::*;
	let p = || any::<u16>().prop_map(usize::from);
	prop_oneof![
		2 => p().prop_map(Truncate),
		1 => vec(any::<u8>(), 1..9).prop_map(Extend),
		2 => (p(), prop_oneof![any::<u8>(), Just(0u8), Just(b','), Just(0x80), Just(0xff)]).prop_map(|(a, b)| Set(a, b)),
		2 => (p(), 0u8..8).prop_map(|(a, b)| Flip(a, b)),
		1 => (p(), gen::number()).prop_map(|(a, b)| Number(a, b)),
		3 => (p(), prop_oneof![-3i32..4, Just(-4i32), Just(4), Just(256), Just(i32::MIN)]).prop_map(|(a, b)| Add(a, b)),
		1 => (p(), 1usize..8).prop_map(|(a, b)| Remove(a, b)),
		1 => (p(), 1usize..8).prop_map(|(a, b)| Double(a, b)),
	]
	.boxed()
}

/// Positions of the 32-bit numbers of an encoding are the interesting ones.
fn number_positions(fields: &[F], b: &[u8], start: usize) -> Vec<usize> {
	fn go(pos: &mut usize, b: &[u8], out: &mut Vec<usize>) -> Option<(usize, usize)> {
		out.push(*pos);
		let l = u32::from_be_bytes(b.get(*pos..*pos + 4)?.try_into().ok()?) as usize;
		let r = (*pos + 4, *pos + 4 + l);
		*pos = r.1;
		Some(r)
	}
	let mut out = vec![];
	let mut pos = start;
	for f in fields {
		match f {
			F::Bool | F::LitBool(_) => pos += 1,
			F::Cookie => pos += 16,
			F::U32 | F::Zero => {
				out.push(pos);
				pos += 4
			}
			F::Rest => break,
			F::Key | F::Sig => {
				if let Some((mut a, e)) = go(&mut pos, b, &mut out) {
					while a < e {
						if go(&mut a, b, &mut out).is_none() {
							break;
						}
					}
				}
			}
			_ => {
				if go(&mut pos, b, &mut out).is_none() {
					break;
				}
			}
		}
		if pos >= b.len() {
			break;
		}
	}
	out
}

fn mutate(mut b: Vec<u8>, nums: &[usize], ms: &[Mutation]) -> Vec<u8> {
	for m in ms {
		let n = b.len().max(1);
		let num_at = |p: usize| {
			if nums.is_empty() {
				p % n
			} else {
				nums[p % nums.len()]
			}
		};
		match m {
			Mutation::Truncate(p) => b.truncate(p % (n + 1)),
			Mutation::Extend(x) => b.extend_from_slice(x),
			Mutation::Set(p, v) => {
				if let Some(x) = b.get_mut(p % n) {
					*x = *v
				}
			}
			Mutation::Flip(p, v) => {
				if let Some(x) = b.get_mut(p % n) {
					*x ^= 1 << v
				}
			}
			Mutation::Number(p, v) => {
				let i = num_at(*p);
				if i + 4 <= b.len() {
					b[i..i + 4].copy_from_slice(&v.to_be_bytes())
				}
			}
			Mutation::Add(p, v) => {
				let i = num_at(*p);
				if i + 4 <= b.len() {
					let x = u32::from_be_bytes(b[i..i + 4].try_into().unwrap());
					b[i..i + 4].copy_from_slice(&x.wrapping_add(*v as u32).to_be_bytes())
				}
			}
			Mutation::Remove(p, l) => {
				let i = p % n;
				let e = (i + l).min(b.len());
				if i < e {
					b.drain(i..e);
				}
			}
			Mutation::Double(p, l) => {
				let i = p % n;
				let e = (i + l).min(b.len());
				if i < e {
					let x = b[i..e].to_vec();
					for (k, v) in x.into_iter().enumerate() {
						b.insert(e + k, v)
					}
				}
			}
		}
	}
	b
}

pub struct C02;
impl Prop for C02 {
	type Case = DecCase;
	const ID: &'static str = "C02";
	fn rule(&self) -> &'static str {
		"byte strings: encodings of generated messages / session requests with 0..3 mutations (truncate, extend, set, flip, change a number or length field, remove, double), random bytes behind every message number, and random length-prefixed strings; accept/reject and all fields compared with the reference decoder. Non-trivial: the decoder of some kind is entered (known number or type) with at least 4 more bytes, or the input is accepted."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(3_500_000, 15)
	}
	fn fixed(&self, _: Tier) -> Vec<DecCase> {
		// Every message number and request type with short bodies of every length.
		let mut v = vec![DecCase::Msg(Hex(vec![]))];
		for n in 0..=255u8 {
			for l in 0..24usize {
				for f in [0u8, 1, 255] {
					let mut b = vec![f; l];
					b.insert(0, n);
					v.push(DecCase::Msg(Hex(b)));
				}
			}
		}
		for k in SESSION {
			for l in 0..30usize {
				for f in [0u8, 1, 255] {
					v.push(DecCase::Session(Hex(k.name.as_bytes().to_vec()), Hex(vec![f; l])));
				}
			}
		}
		// Every message number in front of every kind's well-formed body.
		for k in MESSAGES {
			let body: Vec<V> = k
				.fields
				.iter()
				.flat_map(|f| match f {
					F::Bool => vec![V::B(true)],
					F::U32 => vec![V::U(7)],
					F::Cookie => vec![s(&[9; 16])],
					F::Zero | F::Lit(_) | F::LitBool(_) => vec![],
					F::Key | F::Sig => vec![s(b"ab"); 3],
					_ => vec![s(b"ab")],
				})
				.collect();
			let b = RMsg::new(k.name, body).encode();
			for n in 0..=255u8 {
				let mut b = b.clone();
				b[0] = n;
				v.push(DecCase::Msg(Hex(b)));
			}
		}
		v
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<DecCase> {
		let m = (gen::message(MESSAGES), vec(mutation(), 0..4)).prop_map(|(m, ms)| {
			let b = m.encode();
			let nums = number_positions(m.kind().fields, &b, 1);
			DecCase::Msg(Hex(mutate(b, &nums, &ms)))
		});
		let se = (gen::message(SESSION), vec(mutation(), 0..4), prop_oneof![9 => Just(None), 1 => gen::bytes().prop_map(Some), 1 => proptest::sample::select(SESSION.iter().map(|k| k.name).collect::<Vec<_>>()).prop_map(|n| Some(Hex(n.as_bytes().to_vec())))]).prop_map(|(m, ms, ty)| {
			let b = m.encode_session();
			let nums = number_positions(m.kind().fields, &b, 0);
			DecCase::Session(
				ty.unwrap_or_else(|| Hex(m.kind.as_bytes().to_vec())),
				Hex(mutate(b, &nums, &ms)),
			)
		});
		let known: Vec<u8> = MESSAGES.iter().map(|k| k.num).collect();
		let raw = (prop_oneof![3 => proptest::sample::select(known), 1 => any::<u8>()], vec(prop_oneof![2 => any::<u8>(), 3 => Just(0u8), 1 => 0u8..8], 0..60))
			.prop_map(|(n, mut v)| {
				v.insert(0, n);
				DecCase::Msg(Hex(v))
			});
		let st = (gen::bytes(), vec(mutation(), 0..3)).prop_map(|(b, ms)| {
			let mut o = vec![];
			put_str(&mut o, &b);
			DecCase::Str(Hex(mutate(o, &[0], &ms)))
		});
		prop_oneof![8 => m, 4 => se, 2 => raw, 1 => st].boxed()
	}
	fn check(&self, c: &DecCase) -> Verdict {
		let mut o = Obs::default();
		let (got, want) = match c {
			DecCase::Msg(b) => {
				let got = no_panic(|| Message::parse(b).ok().map(from_nora))?;
				o.nontrivial = b.len() >= 5 && MESSAGES.iter().any(|k| k.num == b[0]);
				(got, decode(b))
			}
			DecCase::Session(t, b) => {
				let got = no_panic(|| SessionRequest::parse(t, b).ok().map(from_session))?;
				o.nontrivial = b.len() >= 4 && SESSION.iter().any(|k| k.name.as_bytes() == &t[..]);
				(got, decode_session(t, b))
			}
			DecCase::Str(b) => {
				let got = no_panic(|| data::parse_string(b))?;
				let mut r = &b[..];
				let want = get_str(&mut r).map(|x| (x, r));
				ensure!(got == want, "parse_string: {:?} instead of {:?}", got, want);
				o.nontrivial = b.len() >= 4;
				o.label(want.is_some(), "accepted string");
				o.label(want.is_none(), "rejected string");
				return Ok(o);
			}
		};
		match (&got, &want) {
			(Some(g), None) => return Err(format!("malformed input {:?} accepted as {:?}", c, g)),
			(None, Some(w)) => return Err(format!("well-formed input {:?} rejected, expected {:?}", c, w)),
			(Some(g), Some(w)) if g != w => {
				return Err(format!("{:?} decoded to {:?} instead of {:?}", c, g, w))
			}
			_ => {}
		}
		o.nontrivial |= want.is_some();
		o.label(want.is_some(), "accepted");
		o.label(want.is_none() && o.nontrivial, "rejected inside a decoder");
		o.label(want.is_none() && !o.nontrivial, "rejected outright");
		Ok(o)
	}
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BufCase {
	pub what: EncCase,
	/// Extra buffer lengths to try, relative to the encoded length (modulo)
	pub extra: Vec<u32>,
	pub fill: u8,
}

pub struct C03;
impl Prop for C03 {
	type Case = BufCase;
	const ID: &'static str = "C03";
	fn rule(&self) -> &'static str {
		"a generated message, session request or signed-data payload encoded into buffers of every length from 0 to encoded length + 3 (if at most 160 bytes; otherwise boundaries and generated lengths). Inner evaluations are the buffer lengths tried. Non-trivial: the encoding has at least 5 bytes."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(1_500_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<BufCase> {
		(enc_strategy(), vec(any::<u32>(), 0..6), prop_oneof![Just(0xa5u8), any::<u8>()])
			.prop_map(|(what, extra, fill)| BufCase { what, extra, fill })
			.boxed()
	}
	fn check(&self, c: &BufCase) -> Verdict {
		let want = ref_encode(&c.what);
		let l = want.len();
		let mut lens: Vec<usize> = vec![l, l + 1, l + 40];
		if l <= 160 {
			lens.extend(0..l + 4);
		} else {
			lens.extend([0, 1, 3, 4, 5, l / 2, l - 5, l - 4, l - 3, l - 2, l - 1]);
			lens.extend(c.extra.iter().map(|x| *x as usize % (l + 100)));
		}
		let mut o = Obs::new(l >= 5);
		o.inner = lens.len() as u64;
		for n in lens {
			let mut buf = vec![c.fill; n];
			let r = lib_encode(&c.what, &mut buf).map_err(|e| format!("buffer of {} bytes for {}: {}", n, l, e))?;
			match r {
				None => ensure!(n < l, "refused a buffer of {} bytes for an encoding of {}", n, l),
				Some((_, got, rest)) => {
					ensure!(n >= l, "claims to have put {} bytes in a buffer of {}", l, n);
					ensure!(got == l, "reports {} bytes for an encoding of {}", got, l);
					ensure!(rest == n - l, "reports {} bytes left of {} after {}", rest, n, l);
					ensure!(buf[..l] == want[..], "in a buffer of {}: {}", n, diff(&buf[..l], &want));
					ensure!(buf[l..].iter().all(|b| *b == c.fill), "bytes behind the encoding changed in a buffer of {}", n);
				}
			}
		}
		o.label(l > 160, "sampled buffer lengths");
		o.label(l <= 160, "all buffer lengths");
		Ok(o)
	}
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TextCase(pub Hex);

pub struct C04;
impl Prop for C04 {
	type Case = TextCase;
	const ID: &'static str = "C04";
	fn rule(&self) -> &'static str {
		"all byte strings of length 0..3 over a 9-letter alphabet, then byte strings over comma-heavy and arbitrary alphabets with boundary lengths. Non-trivial: non-empty."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(4_000_000, 15)
	}
	fn fixed(&self, _: Tier) -> Vec<TextCase> {
		let a = [b',', b'a', b'\0', b' ', 127, 128, 255, b'S', b'-'];
		let mut v: Vec<Vec<u8>> = vec![vec![]];
		let mut last = v.clone();
		for _ in 0..5 {
			last = last
				.iter()
				.flat_map(|p| a[..if p.len() < 3 { 9 } else { 2 }].iter().map(move |c| [&p[..], &[*c]].concat()))
				.collect();
			v.extend(last.iter().cloned());
		}
		for n in 250..258usize {
			v.push(vec![b'x'; n]);
		}
		// One thing wrong (or not) at each position of a long list
		let long = [&b"n"[..]; 1200].join(&b',');
		for at in 0..long.len() {
			for x in [b',', 200] {
				let mut l = long.clone();
				l[at] = x;
				v.push(l);
			}
		}
		v.into_iter().map(|b| TextCase(Hex(b))).collect()
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<TextCase> {
		prop_oneof![
			4 => vec(prop_oneof![Just(b','), Just(b'a'), Just(b'b')], 0..20),
			3 => vec(prop_oneof![8 => 0u8..128, 2 => Just(b',')], 0..60),
			2 => vec(prop_oneof![20 => 0u8..128, 1 => 128u8..=255], 0..60),
			1 => vec(any::<u8>(), 0..40),
			1 => (240usize..260, prop_oneof![Just(b'x'), Just(0xc3u8)], any::<u16>(), prop_oneof![Just(b','), Just(0x80u8), Just(b'\n')]).prop_map(|(n, c, p, x)| { let mut v = vec![c; n]; v[usize::from(p) % n] = x; v }),
			1 => gen::names().prop_map(|h| h.0),
			// A long list of names with one thing wrong anywhere
			1 => (2usize..200, 1usize..40, any::<u32>(), prop_oneof![3 => Just(b','), 1 => 128u8..=255, 1 => 0u8..128], any::<bool>()).prop_map(|(n, k, at, x, replace)| {
				let mut v = vec![vec![b'n'; k]; n].join(&b',');
				let at = at as usize % v.len();
				if replace { v[at] = x } else { v.insert(at, x) }
				v
			}),
		]
		.prop_map(|b| TextCase(Hex(b)))
		.boxed()
	}
	fn check(&self, c: &TextCase) -> Verdict {
		let b = &c.0[..];
		let want = is_names(b);
		let l = no_panic(|| NameList::try_from(b))?;
		ensure!(l.is_ok() == want, "name list {:?}: accepted {} instead of {}", c, l.is_ok(), want);
		if let Ok(l) = l {
			let names: Vec<&[u8]> = if b.is_empty() { vec![] } else { b.split(|c| *c == b',').collect() };
			let got: Vec<&[u8]> = no_panic(|| l.iter().take(b.len() + 2).map(|s| s.as_bytes()).collect())?;
			ensure!(got == names, "name list {:?} iterates as {:?}", c, got);
			ensure!(<&[u8]>::from(l) == b && <&str>::from(l).as_bytes() == b, "name list {:?} changed", c);
			// iterating does not consume the list
			ensure!(l.iter().count() == names.len(), "name list {:?} iterates differently again", c);
			let dbg = no_panic(|| format!("{:?}", l))?;
			let want_dbg = format!("{:?}", names.iter().map(|n| std::str::from_utf8(n).unwrap()).collect::<Vec<_>>());
			ensure!(dbg == want_dbg, "name list prints as {} instead of {}", dbg, want_dbg);
		}
		let ascii = b.iter().all(|c| *c < 128);
		let a = no_panic(|| AsciiStr::try_from(b))?;
		ensure!(a.is_ok() == ascii, "ASCII {:?}: accepted {} instead of {}", c, a.is_ok(), ascii);
		if let Ok(a) = a {
			ensure!(<&[u8]>::from(a) == b && <&str>::from(a).as_bytes() == b, "ASCII {:?} changed", c);
		}
		// Arrays
		if let Ok(b) = <&[u8; 5]>::try_from(b) {
			let (l, a) = (NameList::try_from(b), AsciiStr::try_from(b));
			ensure!(l.is_ok() == want && a.is_ok() == ascii, "array {:?}: name list {}, ASCII {}", c, l.is_ok(), a.is_ok());
			ensure!(l.map_or(true, |l| <&[u8]>::from(l) == b) && a.map_or(true, |a| <&[u8]>::from(a) == b), "array {:?} changed", c);
		}
		let i = no_panic(|| Identifier::new(b))?;
		ensure!(i.is_some() == (b.len() <= 253), "identifier of {} bytes: accepted {}", b.len(), i.is_some());
		if let Some(i) = i {
			ensure!(i.as_ref() == b, "identifier {:?} changed", c);
		}
		let mut o = Obs::new(!b.is_empty());
		o.label(want && !b.is_empty(), "valid list");
		o.label(want && b.contains(&b','), "valid list of several names");
		o.label(ascii && !want, "ASCII but empty element");
		o.label(b.len() > 300, "long list");
		o.label(!ascii, "not ASCII");
		o.label(b.len() > 253, "too long for an identifier");
		Ok(o)
	}
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum PacketCase {
	Wrap { len: usize, owner: u8, block: u8, with_len: bool, slack: usize, pad: u8 },
	Raw { packet_len: usize, padding: u8, block: u8, with_len: bool, slack: usize, owner: u8 },
}

/// A generator which yields the same byte however it is asked.
struct ConstRng(u8);
impl rand::RngCore for ConstRng {
	fn next_u32(&mut self) -> u32 {
		u32::from_ne_bytes([self.0; 4])
	}
	fn next_u64(&mut self) -> u64 {
		u64::from_ne_bytes([self.0; 8])
	}
	fn fill_bytes(&mut self, b: &mut [u8]) {
		b.fill(self.0)
	}
	fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> {
		b.fill(self.0);
		Ok(())
	}
}
impl rand::CryptoRng for ConstRng {}

fn block(b: u8) -> (BlockSize, usize) {
	match b % 4 {
		0 => (BlockSize::B8, 8),
		1 => (BlockSize::B16, 16),
		2 => (BlockSize::B32, 32),
		_ => (BlockSize::B64, 64),
	}
}

pub struct C05;
impl C05 {
	fn views(mut p: Packet<'_>, raw: &[u8], extra: usize, which: u8) -> Result<(), String> {
		let pl = u32::from_be_bytes(raw[..4].try_into().unwrap()) as usize;
		let pad = usize::from(raw[4]);
		let pay = &raw[5..5 + pl - pad - 1];
		ensure!(p.packet_len() == pl, "packet_len {} instead of {}", p.packet_len(), pl);
		ensure!(p.packet_len_bytes()[..] == raw[..4], "packet_len_bytes");
		ensure!(p.packet_len_bytes_mut()[..] == raw[..4], "packet_len_bytes_mut");
		ensure!(p.padding_len() == pad, "padding_len {} instead of {}", p.padding_len(), pad);
		ensure!(p.payload_len() == pay.len(), "payload_len {} instead of {}", p.payload_len(), pay.len());
		ensure!(p.payload() == pay, "payload: {}", diff(p.payload(), pay));
		ensure!(p.payload_mut() == pay, "payload_mut");
		ensure!(p.packet_bytes() == &raw[4..4 + pl], "packet_bytes");
		ensure!(p.packet_bytes_mut() == &raw[4..4 + pl], "packet_bytes_mut");
		ensure!(p.as_raw() == &raw[..4 + pl], "as_raw");
		ensure!(p.as_raw_mut() == &raw[..4 + pl], "as_raw_mut");
		if which % 2 == 0 {
			let x = p.into_payload();
			ensure!(x == pay, "into_payload");
		} else {
			let x = p.into_raw(extra);
			ensure!(x == &raw[..4 + pl + extra], "into_raw({})", extra);
		}
		Ok(())
	}
}
impl Prop for C05 {
	type Case = PacketCase;
	const ID: &'static str = "C05";
	fn rule(&self) -> &'static str {
		"payload lengths 0..600 enumerated for all block sizes and padding modes, then generated up to 70000; raw frames with generated length and padding fields. Non-trivial: all (every case has a complete frame)."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(1_500_000, 15)
	}
	fn fixed(&self, _: Tier) -> Vec<PacketCase> {
		let mut v = vec![];
		for len in 0..600 {
			for block in 0..4 {
				for with_len in [false, true] {
					v.push(PacketCase::Wrap { len, owner: len as u8, block, with_len, slack: len % 7, pad: 0x5a });
				}
			}
		}
		for packet_len in 0..140 {
			for padding in 0..142 {
				for with_len in [false, true] {
					v.push(PacketCase::Raw { packet_len, padding, block: (packet_len / 3 + usize::from(padding)) as u8, with_len, slack: 1, owner: padding });
				}
			}
		}
		v
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<PacketCase> {
		let len = prop_oneof![4 => 0usize..300, 2 => 300usize..5000, 1 => gen::boundary_len(), 1 => gen::huge_len(), 1 => 30000usize..36000];
		let slack = || prop_oneof![Just(0usize), 0usize..64, 0usize..600];
		prop_oneof![
			(len, any::<u8>(), 0u8..4, any::<bool>(), slack(), any::<u8>())
				.prop_map(|(len, owner, block, with_len, slack, pad)| PacketCase::Wrap { len, owner, block, with_len, slack, pad }),
			(prop_oneof![3 => 0usize..300, 1 => 300usize..70000], any::<u8>(), 0u8..4, any::<bool>(), any::<bool>(), slack(), any::<u8>(), 0u8..4)
				.prop_map(|(n, padding, block_, with_len, align, slack, owner, near)| {
					let bs = block(block_).1;
					// Half of the frames are aligned.
					let packet_len = if align {
						let t = (n / bs + 1) * bs;
						if with_len { t - 4 } else { t }
					} else { n };
					// Some have a padding right at the limit.
					let padding = if near == 0 { (packet_len + 1).saturating_sub(usize::from(padding % 3)).min(255) as u8 } else { padding };
					PacketCase::Raw { packet_len, padding, block: block_, with_len, slack, owner }
				}),
		]
		.boxed()
	}
	fn check(&self, c: &PacketCase) -> Verdict {
		let mut o = Obs::new(true);
		match c {
			PacketCase::Wrap { len, owner, block: b, with_len, slack, pad } => {
				let (bs, n) = block(*b);
				let payload = content(u64::from(*owner), 0, *len);
				// Room for the largest padding RFC 4253 allows a minimal sender to use
				let mut buf = vec![0xeeu8; 4 + 1 + len + 4 + 2 * n + slack];
				let size = buf.len();
				let raw = no_panic(|| {
					let p = Packet::wrap(
						&mut buf,
						bs,
						*with_len,
						|b| {
							b[..*len].copy_from_slice(&payload);
							*len
						},
						ConstRng(*pad),
					);
					p.as_raw().to_vec()
				})?;
				let pl = u32::from_be_bytes(raw[..4].try_into().unwrap()) as usize;
				ensure!(raw.len() == 4 + pl, "raw length {} for packet length {}", raw.len(), pl);
				let padding = usize::from(raw[4]);
				ensure!(pl == 1 + len + padding, "packet length {} for payload {} and padding {}", pl, len, padding);
				ensure!((4..=255).contains(&padding), "padding of {} bytes", padding);
				let padded = if *with_len { pl + 4 } else { pl };
				ensure!(padded % n == 0, "{} bytes are not a multiple of {}", padded, n);
				ensure!(raw[5..5 + len] == payload[..], "payload: {}", diff(&raw[5..5 + len], &payload));
				ensure!(raw[5 + len..].iter().all(|x| x == pad), "padding is not from the random generator");
				ensure!(buf.len() == size && buf[raw.len()..].iter().all(|x| *x == 0xee) || raw.len() < 5 + len, "bytes behind the packet changed");
				let mut copy = [&raw[..], &vec![0x11u8; 20][..]].concat();
				let all = copy.clone();
				let p = no_panic(|| Packet::wrap_raw(&mut copy, *with_len, bs).map_err(|e| format!("{:?}", e)))?
					.map_err(|e| format!("own packet refused: {}", e))?;
				no_panic(|| Self::views(p, &all, 16, *owner))??;
				o.label(*len == 0, "empty payload");
				o.label(*len > 32768, "large payload");
				o.label(true, "wrap");
			}
			PacketCase::Raw { packet_len, padding, block: b, with_len, slack, owner } => {
				let (bs, n) = block(*b);
				let mut raw = (*packet_len as u32).to_be_bytes().to_vec();
				raw.push(*padding);
				raw.extend(content(u64::from(*owner), 0, packet_len.saturating_sub(1) + slack));
				let total = packet_len + if *with_len { 4 } else { 0 };
				let want = total % n == 0 && usize::from(*padding) + 1 <= *packet_len;
				let mut copy = raw.clone();
				let r = no_panic(|| Packet::wrap_raw(&mut copy, *with_len, bs))?;
				ensure!(r.is_ok() == want, "frame accepted: {} instead of {}", r.is_ok(), want);
				if let Ok(p) = r {
					no_panic(|| Self::views(p, &raw, *slack, *owner))??;
				}
				o.label(want, "raw accepted");
				o.label(!want && total % n != 0, "raw misaligned");
				o.label(!want && total % n == 0, "raw padding too large");
			}
		}
		Ok(o)
	}
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct CipherCase {
	pub secret: Hex,
	pub hash: Hex,
	pub to_server: bool,
	pub counter: u32,
	/// Lengths of the packet bodies (without length field and tag)
	pub bodies: Vec<usize>,
	pub owner: u8,
	/// Decrypt right away or after everything was encrypted
	pub interleave: bool,
}

fn arr32(h: &[u8]) -> [u8; 32] {
	h.try_into().expect("32 bytes")
}
fn dir(to_server: bool) -> Direction {
	if to_server {
		Direction::ClientToServer
	} else {
		Direction::ServerToClient
	}
}
fn lib_cipher(secret: &[u8], hash: &[u8], to_server: bool, counter: u32) -> ChaCha20Poly1305 {
	let mat = KeyMaterial::<Sha256>::new(arr32(secret), arr32(hash));
	ChaCha20Poly1305::from_key_material(&mat, dir(to_server), counter.into())
}
fn ref_cipher(secret: &[u8], hash: &[u8], to_server: bool, counter: u32) -> Aead {
	let key = rc::derive(secret, hash, if to_server { b'C' } else { b'D' }, 2);
	Aead::new(&key, counter.into())
}
fn counter() -> BoxedStrategy<u32> {
	prop_oneof![
		3 => 0u32..10,
		2 => proptest::sample::select(vec![250u32, 255, 256, 65530, 65535, 65536, 0xff_fff0, 0x00ff_ffff, 0x0100_0000, 0x7fff_fff0, 0x8000_0000, 0xffff_ff00]),
		2 => 0u32..0xffff_ff00,
	]
	.boxed()
}
fn body_len() -> BoxedStrategy<usize> {
	prop_oneof![
		1 => Just(0usize),
		6 => (1usize..12).prop_map(|n| n * 8),
		3 => 0usize..200,
		2 => prop_oneof![Just(63usize), Just(64), Just(65), Just(127), Just(128), Just(129), Just(12), Just(28), Just(16)],
		1 => 200usize..3000,
	]
	.boxed()
}
fn hash32() -> BoxedStrategy<Hex> {
	prop_oneof![9 => vec(any::<u8>(), 32..33), 1 => any::<u8>().prop_map(|b| vec![b; 32])]
		.prop_map(Hex)
		.boxed()
}
/// A packet as the cipher sees it: length field, body.
fn clear_packet(owner: u64, body: usize) -> Vec<u8> {
	let mut p = vec![];
	put_u32(&mut p, body as u32);
	p.extend(content(owner, 0, body));
	p
}

pub struct C06;
impl Prop for C06 {
	type Case = CipherCase;
	const ID: &'static str = "C06";
	fn rule(&self) -> &'static str {
		"key material, direction, starting sequence number (biased to byte boundaries) and 1..12 packets (bodies 0..3000, sometimes 35000 bytes); ciphertexts compared with an independent implementation and decrypted with the library. Inner evaluations are packets. Non-trivial: at least two packets, or a body longer than one ChaCha block."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(500_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<CipherCase> {
		let bodies = prop_oneof![
			20 => vec(body_len(), 1..12),
			1 => vec(prop_oneof![Just(32768usize), Just(34980), Just(65000)], 1..3),
			1 => vec(0usize..40, 200..300),
		];
		(gen::secret32(), hash32(), any::<bool>(), counter(), bodies, any::<u8>(), any::<bool>())
			.prop_map(|(secret, hash, to_server, counter, bodies, owner, interleave)| CipherCase {
				secret,
				hash,
				to_server,
				counter: counter.min(u32::MAX - 400),
				bodies,
				owner,
				interleave,
			})
			.boxed()
	}
	fn check(&self, c: &CipherCase) -> Verdict {
		let mut tx = lib_cipher(&c.secret, &c.hash, c.to_server, c.counter);
		let mut rx = lib_cipher(&c.secret, &c.hash, c.to_server, c.counter);
		let mut reference = ref_cipher(&c.secret, &c.hash, c.to_server, c.counter);
		ensure!(tx.tag_size() == 16, "tag size {}", tx.tag_size());
		ensure!(matches!(tx.block_size(), BlockSize::B8), "block size");
		let mut queue = vec![];
		let mut o = Obs::new(c.bodies.len() > 1 || c.bodies.iter().any(|b| *b > 64));
		o.inner = c.bodies.len() as u64;
		let mut receive = |i: usize, clear: &[u8], ct: &[u8]| -> Result<(), String> {
			let l = no_panic(|| rx.decrypt_length(ct[..4].try_into().unwrap()))?
				.map_err(|_| format!("packet {}: length refused", i))?;
			ensure!(l[..] == clear[..4], "packet {}: length decrypts to {:?} instead of {:?}", i, l, &clear[..4]);
			let mut d = ct.to_vec();
			no_panic(|| rx.decrypt_data(&mut d))?.map_err(|_| format!("authentic packet {} rejected", i))?;
			ensure!(
				d[4..clear.len()] == clear[4..],
				"packet {} decrypts wrongly: {}",
				i,
				diff(&d[4..clear.len()], &clear[4..])
			);
			Ok(())
		};
		for (i, b) in c.bodies.iter().enumerate() {
			let clear = clear_packet(u64::from(c.owner) << 16 | i as u64, *b);
			let mut buf = clear.clone();
			buf.extend([0xc7; 16]);
			no_panic(|| tx.encrypt(&mut buf))?;
			let want = reference.seal(&clear);
			ensure!(buf == want, "packet {} (sequence number {}): ciphertext {}", i, c.counter as usize + i, diff(&buf, &want));
			if c.interleave {
				receive(i, &clear, &buf)?;
			} else {
				queue.push((clear, buf));
			}
		}
		for (i, (clear, ct)) in queue.iter().enumerate() {
			receive(i, clear, ct)?;
		}
		o.label(c.bodies.iter().any(|b| *b > 4096), "large packet");
		o.label(c.bodies.len() > 100, "many packets");
		o.label((c.counter & 0xff) as usize + c.bodies.len() > 0xff, "sequence number crosses a byte boundary");
		Ok(o)
	}
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Tamper {
	Flip { pos: u32, bit: u8 },
	Truncate(u32),
	Extend(Hex),
	/// Cut bytes out of the middle
	Cut { pos: u32, len: u8 },
	/// An earlier authentic packet again
	Replay(u8),
	/// A later authentic packet
	Skip(u8),
	/// The authentic packet at this position of the opposite direction
	OtherDirection,
	/// ... of a session with another secret
	OtherSecret { pos: u8, bit: u8 },
	/// ... of a session with another hash
	OtherHash { pos: u8, bit: u8 },
	/// ... of the same session with another sequence number
	OtherCounter(u32),
	/// Body of this packet, tag of another
	SwapTag(u8),
	Tag(u8),
	Random(Hex),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TamperCase {
	pub secret: Hex,
	pub hash: Hex,
	pub to_server: bool,
	pub counter: u32,
	pub bodies: Vec<usize>,
	/// For each packet the forgeries offered before the authentic one.
	pub forgeries: Vec<Vec<Tamper>>,
	/// Which packet gets every single-bit change
	pub exhaustive: Option<u8>,
}

fn tamper() -> BoxedStrategy<Tamper> {
	use Tamper::*;
	prop_oneof![
		4 => (any::<u32>(), 0u8..8).prop_map(|(pos, bit)| Flip { pos, bit }),
		1 => (1u32..100).prop_map(Truncate),
		1 => vec(any::<u8>(), 1..20).prop_map(|v| Extend(Hex(v))),
		1 => (any::<u32>(), 1u8..9).prop_map(|(pos, len)| Cut { pos, len }),
		2 => any::<u8>().prop_map(Replay),
		2 => any::<u8>().prop_map(Skip),
		1 => Just(OtherDirection),
		1 => (0u8..32, 0u8..8).prop_map(|(pos, bit)| OtherSecret { pos, bit }),
		1 => (0u8..32, 0u8..8).prop_map(|(pos, bit)| OtherHash { pos, bit }),
		1 => any::<u32>().prop_map(OtherCounter),
		1 => any::<u8>().prop_map(SwapTag),
		1 => prop_oneof![Just(0u8), Just(255), any::<u8>()].prop_map(Tag),
		1 => vec(any::<u8>(), 20..60).prop_map(|v| Random(Hex(v))),
	]
	.boxed()
}

pub struct C07;
impl Prop for C07 {
	type Case = TamperCase;
	const ID: &'static str = "C07";
	fn rule(&self) -> &'static str {
		"histories of 1..6 authentic packets with 0..4 forgeries (bit flips, truncation, extension, cuts, replays, skips, other direction / secret / hash / sequence number, swapped or constant tags, random bytes) offered before each; in half of the cases every single-bit change of one small packet. Packets come from the reference cipher. Inner evaluations are offered forgeries. Non-trivial: at least one forgery that differs from the authentic packet."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(500_000, 15)
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["forgeries are at least 20 bytes long (length field and tag), as the only caller guarantees"]
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<TamperCase> {
		(
			gen::secret32(),
			hash32(),
			any::<bool>(),
			counter(),
			vec((body_len(), vec(tamper(), 0..5)), 1..7),
			prop_oneof![3 => Just(None), 1 => any::<u8>().prop_map(Some)],
		)
			.prop_map(|(secret, hash, to_server, counter, p, exhaustive)| {
				let (bodies, forgeries) = p.into_iter().unzip();
				TamperCase { secret, hash, to_server, counter: counter.min(u32::MAX - 400), bodies, forgeries, exhaustive }
			})
			.boxed()
	}
	fn check(&self, c: &TamperCase) -> Verdict {
		let mut reference = ref_cipher(&c.secret, &c.hash, c.to_server, c.counter);
		let clear: Vec<Vec<u8>> = c
			.bodies
			.iter()
			.enumerate()
			.map(|(i, b)| clear_packet(i as u64 + 77, *b))
			.collect();
		let authentic: Vec<Vec<u8>> = clear.iter().map(|p| reference.seal(p)).collect();
		let mut rx = lib_cipher(&c.secret, &c.hash, c.to_server, c.counter);
		let mut o = Obs::default();
		let flip = |h: &Hex, pos: u8, bit: u8| {
			let mut h = h.0.clone();
			h[usize::from(pos) % 32] ^= 1 << (bit % 8);
			h
		};
		let n = authentic.len();
		for (i, a) in authentic.iter().enumerate() {
			let mut forged: Vec<(String, Vec<u8>)> = vec![];
			for t in c.forgeries.get(i).into_iter().flatten() {
				let f = match t {
					Tamper::Flip { pos, bit } => {
						let mut f = a.clone();
						let p = *pos as usize % f.len();
						f[p] ^= 1 << (bit % 8);
						f
					}
					Tamper::Truncate(k) => a[..a.len().saturating_sub(*k as usize).max(20)].to_vec(),
					Tamper::Extend(x) => [&a[..], &x[..]].concat(),
					Tamper::Cut { pos, len } => {
						let p = *pos as usize % a.len();
						let e = (p + usize::from(*len)).min(a.len());
						let mut f = [&a[..p], &a[e..]].concat();
						f.resize(f.len().max(20), 0);
						f
					}
					Tamper::Replay(k) if i > 0 => authentic[usize::from(*k) % i].clone(),
					Tamper::Skip(k) if i + 1 < n => authentic[i + 1 + usize::from(*k) % (n - i - 1)].clone(),
					Tamper::Replay(_) | Tamper::Skip(_) => continue,
					Tamper::OtherDirection => {
						let mut r = ref_cipher(&c.secret, &c.hash, !c.to_server, c.counter);
						r.seq += i as u64;
						r.seal(&clear[i])
					}
					Tamper::OtherSecret { pos, bit } => {
						let mut r = ref_cipher(&flip(&c.secret, *pos, *bit), &c.hash, c.to_server, c.counter);
						r.seq += i as u64;
						r.seal(&clear[i])
					}
					Tamper::OtherHash { pos, bit } => {
						let mut r = ref_cipher(&c.secret, &flip(&c.hash, *pos, *bit), c.to_server, c.counter);
						r.seq += i as u64;
						r.seal(&clear[i])
					}
					Tamper::OtherCounter(k) => {
						let mut r = ref_cipher(&c.secret, &c.hash, c.to_server, *k);
						r.seal(&clear[i])
					}
					Tamper::SwapTag(k) => {
						let b = &authentic[usize::from(*k) % n];
						[&a[..a.len() - 16], &b[b.len() - 16..]].concat()
					}
					Tamper::Tag(b) => [&a[..a.len() - 16], &[*b; 16]].concat(),
					Tamper::Random(r) => r.0.clone(),
				};
				if f != *a {
					forged.push((format!("{:?}", t), f));
				}
			}
			if c.exhaustive.map_or(false, |e| usize::from(e) % n == i) && a.len() <= 80 {
				for p in 0..a.len() {
					for bit in 0..8 {
						let mut f = a.clone();
						f[p] ^= 1 << bit;
						forged.push((format!("flip bit {} of byte {}", bit, p), f));
					}
				}
				o.label(true, "every single-bit change of a packet");
			}
			for (what, f) in &forged {
				o.inner += 1;
				o.nontrivial = true;
				let _ = no_panic(|| rx.decrypt_length(f[..4].try_into().unwrap()))?;
				let mut d = f.clone();
				let r = no_panic(|| rx.decrypt_data(&mut d))?;
				ensure!(r.is_err(), "forgery ({}) accepted in place of packet {}", what, i);
				ensure!(d == *f, "rejected forgery ({}) was changed in the buffer: {}", what, diff(&d, f));
			}
			let l = no_panic(|| rx.decrypt_length(a[..4].try_into().unwrap()))?;
			ensure!(
				l.ok().map_or(false, |l| l[..] == clear[i][..4]),
				"length of authentic packet {} wrong after {} forgeries",
				i,
				forged.len()
			);
			let mut d = a.clone();
			let r = no_panic(|| rx.decrypt_data(&mut d))?;
			ensure!(r.is_ok(), "authentic packet {} rejected after {} forgeries", i, forged.len());
			ensure!(d[4..clear[i].len()] == clear[i][4..], "authentic packet {} decrypts wrongly after {} forgeries", i, forged.len());
		}
		Ok(o)
	}
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HashCase {
	pub client_id: Hex,
	pub server_id: Hex,
	pub client_kexinit: Hex,
	pub server_kexinit: Hex,
	pub key: (Hex, Hex, Hex),
	pub client_key: Hex,
	pub server_key: Hex,
	pub secret: Hex,
	/// A change to make: which input and how
	pub change: (u8, u8),
}

pub struct C08;
impl C08 {
	fn lib<D: Digest + Default>(c: &HashCase) -> Result<Vec<u8>, String> {
		no_panic(|| {
			let mut buf = vec![0; 12 + c.key.0.len() + c.key.1.len() + c.key.2.len()];
			let id = |h: &Hex| Identifier::new(&h[..]).map(|i| i.as_ref().to_vec());
			let (a, b) = (id(&c.client_id)?, id(&c.server_id)?);
			let h = KeyExchangeDigest::<D>::default()
				.update(&Identifier::new(&a)?)
				.update(&Identifier::new(&b)?)
				.update(&c.client_kexinit[..])
				.update(&c.server_kexinit[..])
				.update(
					&mut buf,
					&Key { name: &c.key.0, blob: KeyBlob { identifier: &c.key.1, q: &c.key.2 } },
				)
				.update(&c.client_key[..])
				.update(&c.server_key[..])
				.update(&c.secret[..]);
			Some(h.to_vec())
		})?
		.ok_or_else(|| "legal identifier refused".into())
	}
	fn preimage(c: &HashCase) -> Vec<u8> {
		let mut k = vec![];
		put_str(&mut k, &c.key.0);
		put_str(&mut k, &c.key.1);
		put_str(&mut k, &c.key.2);
		rc::exchange_hash_preimage(&rc::HashInputs {
			client_id: &c.client_id,
			server_id: &c.server_id,
			client_kexinit: &c.client_kexinit,
			server_kexinit: &c.server_kexinit,
			host_key: &k,
			client_key: &c.client_key,
			server_key: &c.server_key,
			secret: &c.secret,
		})
	}
	/// A neighbouring set of inputs that must give another hash.
	fn changed(c: &HashCase) -> Option<HashCase> {
		let mut d = c.clone();
		{
			let mut f: Vec<&mut Vec<u8>> = vec![
				&mut d.client_id.0,
				&mut d.server_id.0,
				&mut d.client_kexinit.0,
				&mut d.server_kexinit.0,
				&mut d.key.0 .0,
				&mut d.key.1 .0,
				&mut d.key.2 .0,
				&mut d.client_key.0,
				&mut d.server_key.0,
				&mut d.secret.0,
			];
			let i = usize::from(c.change.0) % 10;
			match c.change.1 % 4 {
				0 => {
					let n = f[i].len();
					*f[i].get_mut(usize::from(c.change.1 / 4) % n.max(1))? ^= 1 << (c.change.0 % 8);
				}
				1 => {
					f[i].pop()?;
				}
				2 => {
					// Move a byte to the next input
					if i == 9 {
						return None;
					}
					let b = f[i].pop()?;
					f[i + 1].insert(0, b);
				}
				_ => {
					// Swap with the next input
					if i == 9 {
						return None;
					}
					let (a, b) = f.split_at_mut(i + 1);
					std::mem::swap(a[i], b[0]);
				}
			}
		}
		let same = Self::preimage(&d) == Self::preimage(c);
		(!same && d.client_id.len() <= 253 && d.server_id.len() <= 253 && d.secret.len() <= 100).then(|| d)
	}
}
impl Prop for C08 {
	type Case = HashCase;
	const ID: &'static str = "C08";
	fn rule(&self) -> &'static str {
		"all ten inputs of the exchange hash generated (secrets of 0..64 bytes with leading zeros and set top bits); SHA-256 and SHA-512 digests compared with an independently concatenated preimage, then one input changed, cut, or a byte moved to / swapped with its neighbour and the digest required to differ. Non-trivial: at least two inputs are non-empty."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(1_500_000, 15)
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["SHA-256/SHA-512 of the sha2 crate are correct and collision-free on the generated inputs"]
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<HashCase> {
		let ident = || {
			prop_oneof![
				2 => vec(any::<u8>(), 0..40),
				1 => proptest::sample::select(vec![0usize, 1, 252, 253]).prop_map(|n| vec![b'v'; n]),
				1 => vec(0x20u8..0x7f, 0..100).prop_map(|v| [b"SSH-2.0-", &v[..]].concat()),
			]
			.prop_map(Hex)
		};
		let secret = prop_oneof![3 => gen::secret32(), 1 => (0usize..6, vec(any::<u8>(), 0..60)).prop_map(|(z, v)| Hex([vec![0; z], v].concat()))];
		(
			(ident(), ident(), gen::bytes_or_huge(), gen::bytes_or_huge()),
			(gen::bytes(), gen::bytes(), gen::bytes()),
			(gen::bytes(), gen::bytes(), secret),
			any::<(u8, u8)>(),
		)
			.prop_map(|((client_id, server_id, client_kexinit, server_kexinit), key, (client_key, server_key, secret), change)| HashCase {
				client_id,
				server_id,
				client_kexinit,
				server_kexinit,
				key,
				client_key,
				server_key,
				secret,
				change,
			})
			.boxed()
	}
	fn check(&self, c: &HashCase) -> Verdict {
		let m = Self::preimage(c);
		let got = Self::lib::<Sha256>(c)?;
		ensure!(got[..] == Sha256::digest(&m)[..], "SHA-256 exchange hash differs from the RFC's");
		let got512 = Self::lib::<Sha512>(c)?;
		ensure!(got512[..] == Sha512::digest(&m)[..], "SHA-512 exchange hash differs from the RFC's");
		let filled = [&c.client_id, &c.server_id, &c.client_kexinit, &c.server_kexinit, &c.key.0, &c.key.2, &c.client_key, &c.server_key, &c.secret];
		let mut o = Obs::new(filled.iter().filter(|f| !f.is_empty()).count() >= 2);
		if let Some(d) = Self::changed(c) {
			ensure!(Self::lib::<Sha256>(&d)? != got, "changing an input ({:?}) does not change the hash", c.change);
			o.inner += 1;
			o.label(true, "changed neighbour");
		}
		o.label(c.secret.first() == Some(&0), "secret with leading zero");
		o.label(strip0(&c.secret).first().map_or(false, |b| *b >= 128), "secret with top bit");
		Ok(o)
	}
}

// ------------------------------------------------------------------ C09

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct KdfCase {
	pub secret: Hex,
	pub hash: Hex,
	pub blocks: usize,
	pub fill: u8,
}

pub struct C09;
impl Prop for C09 {
	type Case = KdfCase;
	const ID: &'static str = "C09";
	fn rule(&self) -> &'static str {
		"32-byte secrets (leading zeros, top bit, all zero), 32-byte hashes and output lengths of 1 to 49 (and up to 300) blocks; all six outputs compared with RFC 4253 section 7.2. Inner evaluations are outputs. Non-trivial: all."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(1_500_000, 15)
	}
	fn fixed(&self, _: Tier) -> Vec<KdfCase> {
		(1..9)
			.chain([16, 32, 33, 255, 256, 257, 300])
			.map(|blocks| KdfCase { secret: Hex(vec![0; 32]), hash: Hex(vec![0; 32]), blocks, fill: 0 })
			.collect()
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<KdfCase> {
		(gen::secret32(), hash32(), prop_oneof![20 => 1usize..9, 1 => 9usize..50], any::<u8>())
			.prop_map(|(secret, hash, blocks, fill)| KdfCase { secret, hash, blocks, fill })
			.boxed()
	}
	fn check(&self, c: &KdfCase) -> Verdict {
		let mat = KeyMaterial::<Sha256>::new(arr32(&c.secret), arr32(&c.hash));
		let mut outs = vec![];
		let mut o = Obs::new(true);
		for letter in b'A'..=b'F' {
			for (full, blocks) in [(true, c.blocks), (false, 1)] {
				let d = dir((letter - b'A') % 2 == 0);
				let mut buf = vec![[c.fill; 32]; blocks];
				let r = no_panic(|| {
					match (letter - b'A') / 2 {
						0 => mat.initial_iv(d, &mut buf),
						1 => mat.encryption_key(d, &mut buf),
						_ => mat.integrity_key(d, &mut buf),
					}
					.to_vec()
				})?;
				let want = rc::derive(&c.secret, &c.hash, letter, blocks);
				ensure!(r == want, "output {} of {} blocks: {}", letter as char, blocks, diff(&r, &want));
				ensure!(buf.concat() == want, "buffer of output {}", letter as char);
				o.inner += 1;
				if full {
					outs.push(r);
				} else {
					ensure!(outs.last().map_or(false, |l| l.starts_with(&r)), "a longer output does not extend a shorter one");
				}
			}
		}
		for i in 0..6 {
			for j in 0..i {
				ensure!(outs[i] != outs[j], "outputs {} and {} are equal", i, j);
			}
		}
		o.label(c.secret[0] == 0, "secret with leading zero");
		o.label(strip0(&c.secret).first().map_or(false, |b| *b >= 128), "secret with top bit");
		o.label(c.blocks > 1, "extended output");
		Ok(o)
	}
}
