//! C10, C11, C12, C23: the key exchange of the real server, judged by a reference client and a
//! reference acceptor of handshakes.
use crate::{gen, rmsg::*, runner::*, sclient::*, session::*, sim::*, tclient::*, util::*};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// What the server is configured with.
static IDENTS: [&[u8]; 5] = [
	SERVER_IDENT.as_bytes(),
	b"SSH-2.0-x",
	b"SSH-2.0-Nora",
	b"SSH-2.0-\x80\xff odd bytes \r here",
	&[b'S'; 253],
];

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HsCase {
	pub sched: Sched,
	pub net: NetCfg,
	pub ident: u8,
	pub key: u8,
	pub cfg: HsCfg,
	/// Messages to be ignored which are sent after the key exchange
	pub noise: Vec<RMsg>,
}

impl HsCase {
	fn run(&self) -> Sim<Client> {
		let ident = IDENTS[usize::from(self.ident) % IDENTS.len()];
		let key = u64::from(self.key) + 1;
		let mut ops: Vec<Op> = self.noise.iter().cloned().map(Op::Misc).collect();
		ops.extend(login(0, true));
		ops.extend(self.noise.iter().cloned().map(Op::Misc));
		ops.push(Op::Open { ty: hx("session"), cn: 77, window: 1000, max: 1000, auto: true });
		ops.push(Op::Sync);
		let client = ClientCfg { hs: self.cfg.clone(), ops, after: 0, auto_close: true, fill: 0 };
		let mut sim = Sim::new(
			self.sched.clone(),
			ident,
			key,
			Decide::Everyone,
			vec![Client::new(0, client, vec![], expect(key, ident))],
			vec![self.net.clone()],
			vec![vec![]],
		);
		sim.run();
		sim
	}
}

/// The client got through, and everything after the key exchange works in both directions.
fn completed(sim: &Sim<Client>) -> Result<(), String> {
	if let Some(p) = &sim.panic {
		return Err(format!("the server stopped: {}", p));
	}
	let cl = &sim.actors[0];
	if let Some(e) = &cl.t.err {
		return Err(e.clone());
	}
	let w = sim.w();
	ensure!(
		w.nets[0].wr_dropped.is_none(),
		"the server ended the connection (client at {:?}, {} of {} operations)",
		cl.t.phase, cl.pc, cl.cfg.ops.len()
	);
	ensure!(cl.t.established(), "the key exchange did not complete: client at {:?}", cl.t.phase);
	ensure!(
		cl.authed && cl.finished() && cl.chans.len() == 1 && cl.chans[0].state == ChState::Open,
		"no answers under the new keys ({} of {} operations)",
		cl.pc, cl.cfg.ops.len()
	);
	ensure!(cl.strays.is_empty(), "{}", cl.strays[0]);
	ensure!(cl.t.leftover() == 0, "{} stray bytes", cl.t.leftover());
	Ok(())
}

/// The client must not get through.
fn rejected(sim: &Sim<Client>, why: &str, reply: bool) -> Result<(), String> {
	if let Some(p) = &sim.panic {
		return Err(format!("the server stopped: {}", p));
	}
	nothing_served(sim)?;
	let cl = &sim.actors[0];
	if !reply {
		ensure!(!cl.t.info.got_reply, "{}: the server completed the key exchange", why);
		ensure!(!cl.t.info.got_newkeys, "{}: the server activated keys", why);
	}
	let w = sim.w();
	ensure!(w.nets[0].wr_dropped.is_some(), "{}: the connection is still served", why);
	Ok(())
}

fn nothing_served(sim: &Sim<Client>) -> Result<(), String> {
	let w = sim.w();
	for (_, e) in &w.log {
		match e {
			Ev::Auth { .. } => return Err("the application was asked to authenticate somebody".into()),
			Ev::Spawn { .. } => return Err("a program was started".into()),
			_ => {}
		}
	}
	let cl = &sim.actors[0];
	ensure!(cl.auth_rcvd.is_empty() && cl.chans.iter().all(|c| c.state == ChState::Opening), "the server answered a request");
	Ok(())
}

// ------------------------------------------------------------------ generators

/// Names close to the supported ones, and others.
fn other_name(of: &'static str) -> BoxedStrategy<Vec<u8>> {
	let near: Vec<Vec<u8>> = vec![
		format!("{}@libssh.org", of).into_bytes(),
		format!("x{}", of).into_bytes(),
		of[..of.len() - 1].as_bytes().to_vec(),
		of[1..].as_bytes().to_vec(),
		of.to_uppercase().into_bytes(),
		format!("{} ", of).into_bytes(),
		of.split('-').next().unwrap().as_bytes().to_vec(),
		b"none".to_vec(),
		b"aes256-gcm@openssh.com".to_vec(),
		b"ssh-ed25519".to_vec(),
		b"ext-info-c".to_vec(),
	];
	let o = of.as_bytes().to_vec();
	prop_oneof![3 => select(near), 2 => gen::name()]
		.prop_map(move |n| if n == o { b"other".to_vec() } else { n })
		.boxed()
}

/// A list of names which has `of` somewhere.
fn list_with(of: &'static str) -> BoxedStrategy<Hex> {
	prop_oneof![
		3 => Just(hx(of)),
		6 => (vec(other_name(of), 0..5), vec(other_name(of), 0..5)).prop_map(move |(a, b)| {
			let mut v = a;
			v.push(of.as_bytes().to_vec());
			v.extend(b);
			Hex(v.join(&b','))
		}),
		1 => (vec(other_name(of), 0..60), 0usize..61).prop_map(move |(mut a, i)| {
			a.insert(i % (a.len() + 1), of.as_bytes().to_vec());
			Hex(a.join(&b','))
		}),
	]
	.boxed()
}

fn list_without(of: &'static str) -> BoxedStrategy<Hex> {
	vec(other_name(of), 0..5).prop_map(|v| Hex(v.join(&b','))).boxed()
}

fn lists() -> BoxedStrategy<Vec<Hex>> {
	(
		(list_with(KEX), list_with(HOSTKEY), list_with(CIPHER), list_with(CIPHER)),
		(gen::names(), gen::names(), list_with("none"), list_with("none")),
		(gen::names(), gen::names()),
	)
		.prop_map(|(a, b, c)| vec![a.0, a.1, a.2, a.3, b.0, b.1, b.2, b.3, c.0, c.1])
		.boxed()
}

fn legal_ident() -> BoxedStrategy<Hex> {
	prop_oneof![
		2 => Just(b"x".to_vec()),
		6 => vec(0x20u8..0x7f, 1..40),
		2 => vec(0x20u8..0x7f, 200..246),
		1 => Just(vec![b'i'; 245]),
		1 => Just(vec![b'j'; 244]),
	]
	.prop_map(|v| Hex([&b"SSH-2.0-"[..], &v].concat()))
	.boxed()
}

fn wrong_guess() -> BoxedStrategy<Hex> {
	prop_oneof![
		2 => Just(Hex(RMsg::new("ecdh_init", vec![V::S(Hex(content(4, 0, 32)))]).encode())),
		1 => Just(Hex(RMsg::new("ecdh_init", vec![V::S(Hex(content(4, 0, 65)))]).encode())),
		2 => gen::bytes().prop_map(|b| Hex([vec![30], b.0].concat())),
		1 => (0u8..60, gen::bytes()).prop_map(|(n, b)| Hex([vec![n], b.0].concat())),
	]
	.boxed()
}

fn preface() -> BoxedStrategy<Vec<Hex>> {
	let line = vec(0x20u8..0x7f, 0..30)
		.prop_map(|v| if v.starts_with(b"SSH-") { Hex(vec![]) } else { Hex(v) });
	prop_oneof![6 => Just(vec![]), 1 => vec(line, 1..4)].boxed()
}

/// Other names at the end of one of the lists, so that the KEXINIT has a size.
fn enlarge(lists: &mut [Hex], size: usize, k: usize) {
	let now = 22 + lists.iter().map(|l| 4 + l.len()).sum::<usize>();
	let l = &mut lists[k].0;
	if size < now + 2 {
		return;
	}
	let mut more: Vec<u8> = (0..size - now).map(|i| if i % 60 == 59 { b',' } else { b'n' }).collect();
	if !l.is_empty() {
		more[0] = b',';
	}
	*more.last_mut().unwrap() = b'z';
	let n = more.len();
	if n > 2 && more[n - 2] == b',' && n - 2 > 0 {
		more[n - 2] = b'y';
	}
	l.extend(more);
}

/// A client which does everything right.
fn good() -> BoxedStrategy<HsCfg> {
	(
		preface(),
		legal_ident(),
		lists(),
		(any::<u64>(), gen::secret32(), prop_oneof![3 => Just(0u8), 1 => any::<u8>()], 0u8..4),
		prop::option::weighted(0.4, wrong_guess()),
		prop::option::weighted(0.05, (prop_oneof![2 => Just(32_768usize), 1 => Just(32_767usize), 2 => 1000usize..32_769], 0usize..10)),
	)
		.prop_map(|(preface, ident, mut lists, (cookie, secret, pad, early), guess, large)| {
			if let Some((size, k)) = large {
				enlarge(&mut lists, size, k);
			}
			let first = |i: usize, n: &str| lists[i].split(|c| *c == b',').next() == Some(n.as_bytes());
			let guess = match guess {
				None => Guess::None,
				Some(_) if first(0, KEX) && first(1, HOSTKEY) => Guess::Right,
				Some(p) => Guess::Wrong(p),
			};
			HsCfg { preface, ident, lists, cookie, guess, secret, early, pad, fault: Fault::None }
		})
		.boxed()
}

fn noise() -> BoxedStrategy<Vec<RMsg>> {
	let st = gen::bytes();
	let m = prop_oneof![
		gen::of_kind(kind("ignore"), &st),
		gen::of_kind(kind("debug"), &st),
		gen::of_kind(kind("unimplemented"), &st),
	];
	prop_oneof![2 => Just(vec![]), 1 => vec(m, 0..3)].boxed()
}

fn case(cfg: BoxedStrategy<HsCfg>) -> BoxedStrategy<HsCase> {
	(sched(), net(), any::<u8>(), 0u8..20, cfg, noise())
		.prop_map(|(sched, net, ident, key, cfg, noise)| HsCase { sched, net, ident, key, cfg, noise })
		.boxed()
}

// ------------------------------------------------------------------ C10

pub struct C10;
impl Prop for C10 {
	type Case = HsCase;
	const ID: &'static str = "C10";
	fn rule(&self) -> &'static str {
		"A reference client with generated identification, algorithm lists, guess, cookie, ephemeral key, padding, pipelining and fragmentation against the real server with one of several host keys and identifications. It verifies the host key, the signature over its own exchange hash, and then logs in and opens a channel under its own keys and packet numbers. Non-trivial: an algorithm list has other names before the supported one, or a guess, or pipelining, or fragmentation."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["RustCrypto's P-256 and dalek's X25519 are correct (the same implementations are used by both sides)"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(60_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<HsCase> {
		case(good())
	}
	fn max_shrink(&self) -> u32 {
		1500
	}
	fn check(&self, c: &HsCase) -> Verdict {
		let sim = c.run();
		let t = &sim.actors[0].t;
		let (j, ident) = judge_stream(&t.all, false);
		if j != Judgement::Accept && t.sent_items_all() || !c.cfg.ident.starts_with(&ident) {
			return Err(format!("{}: not a good handshake: {:?}", HARNESS_ERROR, j));
		}
		completed(&sim)?;
		let late = [KEX, HOSTKEY, CIPHER, CIPHER]
			.iter()
			.zip(&c.cfg.lists)
			.any(|(n, l)| l.split(|c| *c == b',').next() != Some(n.as_bytes()));
		let guess = !matches!(c.cfg.guess, Guess::None);
		let mut o = Obs::new(late || guess || c.cfg.early > 0 || c.net != NetCfg::plain());
		o.label(late, "supported name not first");
		o.label(matches!(c.cfg.guess, Guess::Right), "right guess");
		o.label(matches!(c.cfg.guess, Guess::Wrong(_)), "wrong guess");
		o.label(c.cfg.early > 0, "pipelined");
		o.label(c.cfg.lists.iter().map(|l| l.len()).sum::<usize>() > 32_000, "KEXINIT of more than 32000 bytes");
		o.label(t.info.secret.first().map_or(false, |b| *b >= 128), "shared secret with top bit");
		o.label(t.info.secret.first() == Some(&0), "shared secret with leading zero");
		o.label(!c.noise.is_empty(), "ignored messages");
		o.label(c.net != NetCfg::plain(), "fragmented");
		o.inner += sim.polls;
		Ok(o)
	}
}

// ------------------------------------------------------------------ C11

/// X25519 points of small order (and non-canonical forms): every shared secret is zero.
fn small_order() -> Vec<Vec<u8>> {
	let h = |s: &str| (0..32).map(|i| u8::from_str_radix(&s[i * 2..i * 2 + 2], 16).unwrap()).collect::<Vec<u8>>();
	let mut v = vec![
		vec![0; 32],
		h("0100000000000000000000000000000000000000000000000000000000000000"),
		h("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
		h("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
		h("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
		h("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
		h("eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
	];
	for i in 0..v.len() {
		let mut x = v[i].clone();
		x[31] |= 0x80;
		v.push(x);
	}
	v
}

fn mutated(p: Vec<u8>) -> BoxedStrategy<Hex> {
	let n = p.len();
	prop_oneof![
		2 => (0..n).prop_map({ let p = p.clone(); move |k| Hex(p[..k].to_vec()) }),
		2 => gen::bytes().prop_map({ let p = p.clone(); move |b| Hex([p.clone(), if b.is_empty() { vec![0] } else { b.0 }].concat()) }),
		4 => (0..n, 0u8..8).prop_map({ let p = p.clone(); move |(i, b)| { let mut q = p.clone(); q[i] ^= 1 << b; Hex(q) } }),
		1 => any::<u8>().prop_map({ let p = p.clone(); move |b| { let mut q = p.clone(); q[0] = b; Hex(q) } }),
	]
	.boxed()
}

fn any_payload() -> BoxedStrategy<Hex> {
	prop_oneof![
		3 => gen::message(MESSAGES).prop_map(|m| { let mut e = m.encode(); e.truncate(30_000); Hex(e) }),
		1 => gen::bytes(),
	]
	.boxed()
}

/// One thing is (probably) wrong.
pub fn faulty() -> BoxedStrategy<HsCfg> {
	let with = |f: BoxedStrategy<Fault>| {
		(good(), f).prop_map(|(mut c, f)| {
			c.fault = f;
			c
		})
	};
	let lists_bad = (good(), 0usize..6)
		.prop_flat_map(|(c, i)| {
			let n = [KEX, HOSTKEY, CIPHER, CIPHER, "none", "none"][i];
			// Kex, host key, ciphers, and compression behind the MACs.
			let i = if i < 4 { i } else { i + 2 };
			(Just(c), Just(i), list_without(n))
		})
		.prop_map(|(mut c, i, l)| {
			c.lists[i] = l;
			// Nothing to guess right.
			if matches!(c.guess, Guess::Right) {
				c.guess = Guess::None;
			}
			c
		});
	let version = prop_oneof![
		select(vec!["SSH-1.99-x", "SSH-1.5-x", "SSH-2.1-x", "SSH-3.0-x", "SSH-2.0", "SSH-2.00-x", "SSH--x", "SSH-20-xx", "SSH-2,0-x", "SSH-\r\n2.0-", "ssh-2.0-x", "SSH_2.0-x"])
			.prop_map(|s| Hex(format!("{}\r\n", s).into_bytes())),
		(246usize..600).prop_map(|n| Hex([&b"SSH-2.0-"[..], &vec![b'a'; n], b"\r\n"].concat())),
		Just(Hex([&b"SSH-2.0-"[..], &[b'a'; 246], b"\r\n"].concat())),
		(0usize..3000).prop_map(|n| Hex(content(5, 0, n))),
		Just(hx("SSH-2.0-x\n")),
		Just(hx("SSH-2.0-x")),
	]
	.prop_map(Fault::Line);
	let key = prop_oneof![
		3 => select(small_order()).prop_map(Hex),
		3 => (0usize..70).prop_map(|n| Hex(content(6, 0, if n == 32 { 33 } else { n }))),
		1 => Just(Hex(content(6, 0, 31))),
		1 => Just(Hex(content(6, 0, 33))),
		1 => Just(Hex(vec![])),
	]
	.prop_map(Fault::Key);
	let payload = (good(), 1u8..4).prop_flat_map(|(c, i)| {
		let p = match i {
			1 => c.kexinit(),
			2 => RMsg::new("ecdh_init", vec![V::S(Hex(c.public().to_vec()))]).encode(),
			_ => vec![21],
		};
		(Just(c), Just(i), prop_oneof![2 => mutated(p), 1 => any_payload()])
	})
	.prop_map(|(mut c, i, p)| {
		c.fault = Fault::Payload(i, p);
		c
	});
	let frame = (1u8..4, prop_oneof![2 => -40i32..40, 1 => any::<i32>(), 1 => 30_000i32..70_000], prop_oneof![2 => Just(0i32), 2 => -10i32..10, 1 => 0i32..255])
		.prop_map(|(i, l, p)| Fault::Frame(i, l, p));
	prop_oneof![
		3 => lists_bad,
		2 => with(version.boxed()),
		3 => with(key.boxed()),
		4 => payload,
		2 => with((1u8..4, any_payload()).prop_map(|(i, p)| Fault::Insert(i, p)).boxed()),
		1 => with((0u8..4).prop_map(Fault::Omit).boxed()),
		1 => with((0u8..4, 0u8..4).prop_map(|(a, b)| Fault::Swap(a, b)).boxed()),
		2 => with(frame.boxed()),
		2 => with((0u32..900).prop_map(Fault::Cut).boxed()),
		2 => with((0u32..900, gen::bytes()).prop_map(|(n, g)| Fault::Garbage(n, g)).boxed()),
	]
	.boxed()
}

pub struct C11;
impl Prop for C11 {
	type Case = HsCase;
	const ID: &'static str = "C11";
	fn rule(&self) -> &'static str {
		"A reference client whose handshake deviates at one step (version, length, algorithm lists, message content, order, framing, ephemeral keys of wrong length or small order, cuts, garbage), against the real server. An independent acceptor judges the bytes the client sent; if they must not be accepted, the server must have ended the connection without completing the key exchange or consulting the application. Non-trivial: the acceptor rejects."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["IGNORE, DEBUG and UNIMPLEMENTED during the key exchange, padding below 4 and packets of 35000 to 131072 bytes are not judged"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(100_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<HsCase> {
		case(faulty())
	}
	fn fixed(&self, _: Tier) -> Vec<HsCase> {
		let mut v = vec![];
		let mut add = |f: Fault| {
			for early in [0, 3] {
				let mut cfg = HsCfg::plain(5);
				cfg.early = early;
				cfg.fault = f.clone();
				v.push(HsCase { sched: Sched::plain(), net: NetCfg::plain(), ident: 0, key: 0, cfg, noise: vec![] });
			}
		};
		for k in small_order() {
			add(Fault::Key(Hex(k)));
		}
		for n in 0..600 {
			add(Fault::Cut(n));
		}
		for i in 0..4 {
			add(Fault::Omit(i));
			for j in 0..i {
				add(Fault::Swap(i, j));
			}
		}
		for n in 0..=255 {
			for i in 1..4 {
				add(Fault::Payload(i, Hex(vec![n])));
			}
		}
		v
	}
	fn max_shrink(&self) -> u32 {
		1500
	}
	fn check(&self, c: &HsCase) -> Verdict {
		let sim = c.run();
		if let Some(p) = &sim.panic {
			return Err(format!("the server stopped: {}", p));
		}
		let cl = &sim.actors[0];
		let eof = cl.closing().0;
		let (j, _) = judge_stream(&cl.t.all, eof);
		let mut o = Obs::default();
		o.inner = sim.polls;
		match j {
			Judgement::Reject { why, reply } => {
				rejected(&sim, why, reply)?;
				o.nontrivial = true;
				o.labels.push(why);
				o.label(reply, "after the server's reply");
			}
			Judgement::Incomplete { reply } => {
				nothing_served(&sim)?;
				ensure!(reply || !(cl.t.info.got_reply || cl.t.info.got_newkeys), "completed before the client sent its key");
				o.label(true, "incomplete");
			}
			Judgement::Unspecified => o.label(true, "not judged"),
			Judgement::Accept => {
				// With another key than its own the client cannot use the connection.
				if !matches!(c.cfg.fault, Fault::None) && cl.t.err.is_some() {
					nothing_served(&sim)?;
				}
				o.label(true, "acceptable");
			}
		}
		Ok(o)
	}
}

// ------------------------------------------------------------------ C23

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct LineCase {
	pub hs: HsCase,
	/// Everything before the first packet
	pub lines: Hex,
}

fn line_bytes() -> BoxedStrategy<Hex> {
	let tok: Vec<Vec<u8>> = [
		"SSH-", "SSH-2.0-", "SSH", "SS", "S", "H", "-", "2.0-", "\r", "\n", "\r\n", "\r\n", "\r\n", " ", "x", "SSH-2.0-x\r\n", "\r\nSSH-2.0-y", "SSH-1.99-", "sSSH-", "\0", "\r\r\n", "\n\r",
	]
	.iter()
	.map(|s| s.as_bytes().to_vec())
	.chain([vec![0x80], vec![0xff; 3], vec![b'q'; 60], vec![b'z'; 260], vec![b'S'; 9]])
	.collect();
	let token = prop_oneof![9 => select(tok), 1 => vec(any::<u8>(), 0..10)];
	let soup = || vec(token.clone(), 0..14).prop_map(|v| v.concat());
	let ident = || {
		prop_oneof![
			3 => vec(0x20u8..0x7f, 0..40),
			3 => vec(prop_oneof![3 => 0x20u8..0x7f, 1 => Just(b'\r'), 1 => any::<u8>()], 0..30),
			2 => (240usize..250, any::<bool>()).prop_map(|(n, cr)| { let mut v = vec![b'i'; n]; if cr { v.push(b'\r') } v }),
		]
	};
	prop_oneof![
		// other lines, then an identification
		5 => (vec(soup(), 0..4), ident()).prop_map(|(l, i)| {
			let mut v = vec![];
			for l in l {
				v.extend(l);
				v.extend(b"\r\n");
			}
			v.extend(b"SSH-2.0-");
			v.extend(i);
			v.extend(b"\r\n");
			v
		}),
		1 => soup(),
		1 => (0usize..5000, soup()).prop_map(|(n, s)| [vec![b'w'; n], b"\r\n".to_vec(), s, b"\r\nSSH-2.0-a\r\n".to_vec()].concat()),
	]
	.prop_map(Hex)
	.boxed()
}

pub struct C23;
impl Prop for C23 {
	type Case = LineCase;
	const ID: &'static str = "C23";
	fn rule(&self) -> &'static str {
		"Generated bytes before the first packet (lines with near-misses of SSH-, empty lines, lone CR and LF, identifications with any bytes and boundary lengths), arbitrarily fragmented, followed by a regular key exchange, against the real server. A reference acceptor finds the identification; the client uses it in its exchange hash and must get through, or the server must refuse. Non-trivial: other lines precede the identification, or it contains unusual bytes or has a boundary length."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(80_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<LineCase> {
		(case(good()), line_bytes()).prop_map(|(hs, lines)| LineCase { hs, lines }).boxed()
	}
	fn fixed(&self, _: Tier) -> Vec<LineCase> {
		let mut v = vec![];
		let mut add = |l: Vec<u8>| {
			for portion in [0, 1] {
				let mut cfg = HsCfg::plain(8);
				cfg.early = 3;
				v.push(LineCase {
					hs: HsCase {
						sched: Sched::plain(),
						net: NetCfg { deliver: portion, ..NetCfg::plain() },
						ident: 0,
						key: 0,
						cfg,
						noise: vec![],
					},
					lines: Hex(l.clone()),
				});
			}
		};
		for p in ["", "\r\n", "\r\n\r\n", "S\r\n", "SS\r\n", "SSH\r\n", "xSSH-2.0-a\r\n", " \r\n", "\r\r\n", "\n\r\n", "SSSH-\r\n", "S\rSSH-2.0-n\r\n", "SSH\rSSH-2.0-n\r\n"] {
			add([p.as_bytes(), b"SSH-2.0-z\r\n"].concat());
		}
		for n in 0..260 {
			add([&b"SSH-2.0-"[..], &vec![b'k'; n], b"\r\n"].concat());
			if n > 0 {
				add([&b"SSH-2.0-"[..], &vec![b'k'; n - 1], b"\r\r\n"].concat());
			}
		}
		for n in [1000usize, 70_000] {
			add([&vec![b'w'; n][..], b"\r\nSSH-2.0-t\r\n"].concat());
			add([&b"x\r\n".repeat(n)[..], b"SSH-2.0-t\r\n"].concat());
		}
		for b in 0..=255u8 {
			add([&b"SSH-2.0-"[..], &[b], b"\r\n"].concat());
			add([&[b][..], b"\r\nSSH-2.0-t\r\n"].concat());
		}
		v
	}
	fn max_shrink(&self) -> u32 {
		1500
	}
	fn check(&self, c: &LineCase) -> Verdict {
		let (_, ident) = judge_stream(&c.lines, false);
		let mut hs = c.hs.clone();
		hs.cfg.preface = vec![];
		hs.cfg.ident = Hex(ident.clone());
		hs.cfg.fault = Fault::Line(c.lines.clone());
		let sim = hs.run();
		if let Some(p) = &sim.panic {
			return Err(format!("the server stopped: {}", p));
		}
		let cl = &sim.actors[0];
		ensure!(cl.t.info.server_line == IDENTS[usize::from(hs.ident) % IDENTS.len()], "the server's identification: {:?}", cl.t.err);
		let (j, id2) = judge_stream(&cl.t.all, false);
		let mut o = Obs::default();
		o.inner = sim.polls;
		match j {
			Judgement::Accept if id2 == ident => {
				completed(&sim).map_err(|e| format!("identification {}: {}", hex_short(&ident), e))?;
				let odd = ident.iter().any(|b| !(0x20..0x7f).contains(b));
				let skipped = c.lines.len() > ident.len() + 2;
				o.nontrivial = odd || skipped || ident.len() > 250;
				o.label(odd, "unusual bytes");
				o.label(skipped, "lines before");
				o.label(ident.len() > 250, "boundary length");
				o.label(hs.cfg.early > 0, "pipelined");
			}
			Judgement::Reject { why, reply } if why == "version" || why == "long identification" => {
				rejected(&sim, why, reply)?;
				o.nontrivial = true;
				o.labels.push(why);
			}
			_ => {
				// No identification yet, or it swallowed the packets.
				o.label(true, "no identification");
				if !matches!(j, Judgement::Accept) {
					nothing_served(&sim)?;
				}
			}
		}
		Ok(o)
	}
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FreshCase {
	pub sched: Sched,
	pub rng2: u64,
	/// Per connection
	pub conns: Vec<(HsCfg, NetCfg, u8)>,
	/// All clients do the same as the first
	pub same: bool,
}

impl FreshCase {
	fn run(&self, rng: u64) -> Sim<Client> {
		let mut sched = self.sched.clone();
		sched.rng = rng;
		let ex = expect(1, SERVER_IDENT.as_bytes());
		let actors = (0..self.conns.len())
			.map(|i| {
				let hs = self.conns[if self.same { 0 } else { i }].0.clone();
				let client = ClientCfg { hs, ops: login(i, true), after: self.conns[i].2.min(i as u8), auto_close: true, fill: 0 };
				Client::new(i, client, vec![], ex.clone())
			})
			.collect();
		let mut sim = Sim::new(
			sched,
			SERVER_IDENT.as_bytes(),
			1,
			Decide::Everyone,
			actors,
			self.conns.iter().map(|c| c.1.clone()).collect(),
			self.conns.iter().map(|_| vec![]).collect(),
		);
		sim.run();
		sim
	}
}

pub struct C12;
impl Prop for C12 {
	type Case = FreshCase;
	const ID: &'static str = "C12";
	fn rule(&self) -> &'static str {
		"Sets of 1 to 6 connections (often byte-identical clients), in generated schedules, run twice with differently seeded random generators and once more with the first seed. Cookies, server ephemeral keys, session identifiers and derived keys of all connections of both runs must be pairwise different, no byte of the cookies constant, and the third run must repeat the first. Non-trivial: at least two connections with identical clients."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["the application's random generator differs per connection (the harness seeds each call of from_entropy differently)"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(8_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<FreshCase> {
		(sched(), any::<u64>(), vec((good(), net(), 0u8..6), 1..7), prop::bool::weighted(0.7))
			.prop_map(|(sched, rng2, conns, same)| FreshCase { sched, rng2, conns, same })
			.boxed()
	}
	fn max_shrink(&self) -> u32 {
		600
	}
	fn check(&self, c: &FreshCase) -> Verdict {
		let rng2 = if c.rng2 == c.sched.rng { c.rng2 ^ 1 } else { c.rng2 };
		let runs = [c.run(c.sched.rng), c.run(rng2), c.run(c.sched.rng)];
		let mut all: Vec<(usize, usize, HsInfo)> = vec![];
		let mut o = Obs::new(c.same && c.conns.len() > 1);
		for (r, sim) in runs.iter().enumerate() {
			o.inner += sim.polls;
			if let Some(p) = &sim.panic {
				return Err(format!("the server stopped: {}", p));
			}
			for (i, cl) in sim.actors.iter().enumerate() {
				if let Some(e) = &cl.t.err {
					return Err(format!("connection {}: {}", i, e));
				}
				ensure!(cl.authed, "connection {} did not get through", i);
				let info = cl.t.info.clone();
				if r < 2 {
					for (r2, i2, b) in &all {
						let at = format!("connection {} of run {} and connection {} of run {}", i2, r2, i, r);
						ensure!(info.cookie != b.cookie, "{}: same cookie", at);
						ensure!(info.server_key != b.server_key, "{}: same ephemeral key", at);
						ensure!(info.sid != b.sid, "{}: same session identifier", at);
						ensure!(info.secret != b.secret, "{}: same secret", at);
					}
					all.push((r, i, info));
				} else {
					let b = &all[i].2;
					ensure!(
						info.cookie == b.cookie && info.server_key == b.server_key,
						"connection {}: cookie or ephemeral key do not come from the application's random generator",
						i
					);
				}
			}
		}
		if all.len() >= 8 {
			for k in 0..16 {
				ensure!(
					all.iter().any(|x| x.2.cookie[k] != all[0].2.cookie[k]),
					"byte {} of the cookie is always {}",
					k, all[0].2.cookie[k]
				);
			}
			o.label(true, "cookies compared byte by byte");
		}
		o.label(c.same && c.conns.len() > 1, "identical clients");
		o.label(c.conns.len() > 3, "more than three connections");
		Ok(o)
	}
}
