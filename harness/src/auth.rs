//! C14, C15: authentication histories with generated decisions of the application, against a
//! model of RFC 4252.
use crate::{gen, rmsg::*, runner::*, sclient::*, session, sim::*, tclient::*, util::*};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct AConn {
	pub net: NetCfg,
	pub early: u8,
	pub ops: Vec<Op>,
	/// The application's decisions, call by call; None: whether the signature verifies
	pub decisions: Vec<Option<bool>>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ACase {
	pub sched: Sched,
	pub conns: Vec<AConn>,
}

impl ACase {
	fn run(&self) -> Sim<Client> {
		let ex = expect(1, SERVER_IDENT.as_bytes());
		let prog = ProgSpec {
			refuse: false,
			stdin: true,
			stdout: true,
			stderr: true,
			accept: None,
			script: vec![PEv::Out(false, 10)],
			command: hx("run"),
		};
		let actors = self
			.conns
			.iter()
			.enumerate()
			.map(|(i, c)| {
				let mut hs = HsCfg::plain(i as u64 + 30);
				hs.early = c.early;
				let cfg = ClientCfg { hs, ops: c.ops.clone(), after: 0, auto_close: true, fill: 0 };
				Client::new(i, cfg, vec![prog.clone()], ex.clone())
			})
			.collect();
		let mut sim = Sim::new(
			self.sched.clone(),
			SERVER_IDENT.as_bytes(),
			1,
			Decide::Script(self.conns.iter().map(|c| c.decisions.clone()).collect()),
			actors,
			self.conns.iter().map(|c| c.net.clone()).collect(),
			self.conns.iter().map(|_| vec![prog.clone()]).collect(),
		);
		sim.run();
		sim
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
	Service,
	Auth,
	Session,
	Ended,
}

/// What must have happened on a connection.
struct Model {
	st: St,
	replies: Vec<RMsg>,
	calls: Vec<(Vec<u8>, Vec<u8>, AuthCall, bool)>,
	signed: u64,
	refused: u64,
	probes: u64,
	unasked: u64,
	/// Something out of place in the session, which is not judged here
	odd: bool,
}

fn parse_two<'a>(alg: &[u8], mut b: &'a [u8]) -> Option<&'a [u8]> {
	let n = get_str(&mut b)?;
	let v = get_str(&mut b)?;
	(n == alg && b.is_empty()).then(|| v)
}

fn model(cl: &Client, decisions: &[Option<bool>]) -> Model {
	let mut m = Model {
		st: St::Service,
		replies: vec![],
		calls: vec![],
		signed: 0,
		refused: 0,
		probes: 0,
		unasked: 0,
		odd: false,
	};
	let failure = || RMsg::new("ua_failure", vec![V::S(hx("publickey,password")), V::B(false)]);
	for (raw, p) in &cl.payloads_sent {
		let msg = match decode(p) {
			Some(msg) => msg,
			None => {
				m.st = St::Ended;
				break;
			}
		};
		if matches!(&*msg.kind, "ignore" | "debug" | "unimplemented") {
			continue;
		}
		match m.st {
			St::Service => {
				if msg.kind == "service_request" && msg.s(0) == b"ssh-userauth" {
					m.replies.push(RMsg::new("service_accept", vec![V::S(hx("ssh-userauth"))]));
					m.st = St::Auth;
				} else {
					m.st = St::Ended;
				}
			}
			St::Auth => {
				let user = || msg.s(0).to_vec();
				let service = || msg.s(1).to_vec();
				let call = match &*msg.kind {
					"ua_none" => Some(AuthCall::None),
					"ua_password" => Some(AuthCall::Password(msg.s(2).to_vec())),
					"ua_pk_blob" => parse_two(msg.s(2), msg.s(3))
						.map(|k| AuthCall::Exists { algorithm: msg.s(2).to_vec(), key: k.to_vec() }),
					"ua_pk_signed" => parse_two(msg.s(2), msg.s(3)).zip(parse_two(msg.s(2), msg.s(4))).map(|(k, s)| {
						AuthCall::PublicKey {
							algorithm: msg.s(2).to_vec(),
							key: k.to_vec(),
							signature: s.to_vec(),
							message: signed_data(&cl.t.info.sid, msg.s(0), msg.s(1), msg.s(2), msg.s(3)),
						}
					}),
					"ua_password_renew" | "ua_hostbased" | "ua_other" => None,
					_ => {
						m.st = St::Ended;
						break;
					}
				};
				let call = match call {
					Some(c) => c,
					None => {
						m.unasked += 1;
						m.replies.push(failure());
						continue;
					}
				};
				let valid = match &call {
					AuthCall::PublicKey { algorithm, key, signature, message } => {
						verifies(algorithm, key, signature, message)
					}
					_ => false,
				};
				let ok = decisions.get(m.calls.len()).map_or(false, |d| d.unwrap_or(valid));
				let probe = matches!(call, AuthCall::Exists { .. });
				m.signed += u64::from(matches!(call, AuthCall::PublicKey { .. }));
				m.probes += u64::from(probe);
				m.refused += u64::from(!ok);
				m.calls.push((user(), service(), call, ok));
				m.replies.push(match (ok, probe) {
					(false, _) => failure(),
					(true, true) => RMsg::new("ua_pk_ok", vec![msg.v[2].clone(), msg.v[3].clone()]),
					(true, false) => {
						m.st = St::Session;
						RMsg::new("ua_success", vec![])
					}
				});
			}
			St::Session => {
				if msg.kind.starts_with("ua_") {
					continue;
				}
				m.odd |= *raw || msg.kind == "service_request";
			}
			St::Ended => break,
		}
	}
	m
}

fn verifies(algorithm: &[u8], key: &[u8], signature: &[u8], message: &[u8]) -> bool {
	use ed25519_dalek::Verifier;
	algorithm == b"ssh-ed25519"
		&& ed25519_dalek::PublicKey::from_bytes(key)
			.ok()
			.zip(ed25519_dalek::Signature::from_bytes(signature).ok())
			.map_or(false, |(k, s)| k.verify(message, &s).is_ok())
}

fn short(c: &AuthCall) -> String {
	match c {
		AuthCall::None => "none".into(),
		AuthCall::Password(p) => format!("password {}", hex_short(p)),
		AuthCall::PublicKey { algorithm, key, signature, message } => format!(
			"publickey {} key {} signature {} message {}",
			hex_short(algorithm), hex_short(key), hex_short(signature), hex_short(message)
		),
		AuthCall::Exists { algorithm, key } => format!("probe {} key {}", hex_short(algorithm), hex_short(key)),
	}
}

/// Compare what happened with the model. `what`: 14 or 15.
fn compare(c: &ACase, sim: &Sim<Client>, what: u8) -> Result<(Vec<Model>, Obs), String> {
	if let Some(p) = &sim.panic {
		return Err(format!("the server stopped: {}", p));
	}
	let w = sim.w();
	let mut models = vec![];
	let mut o = Obs::default();
	o.inner = sim.polls;
	for (ci, cl) in sim.actors.iter().enumerate() {
		let at = |s: String| format!("connection {}: {}", ci, s);
		if let Some(e) = &cl.t.err {
			return Err(at(e.clone()));
		}
		ensure!(cl.t.established(), "{}", at("no key exchange".into()));
		let m = model(cl, &c.conns[ci].decisions);
		let mine = |user: &[u8]| c.conns.len() == 1 || user.first().map_or(0, |b| usize::from(*b)) % c.conns.len() == ci;
		let calls: Vec<_> = w
			.log
			.iter()
			.filter_map(|(t, e)| match e {
				Ev::Auth { user, service, call, accepted } if mine(user) => Some((*t, user, service, call, *accepted)),
				_ => None,
			})
			.collect();
		if what == 15 {
			for (k, (_, user, service, call, accepted)) in calls.iter().enumerate() {
				let (u, s, e, ok) = match m.calls.get(k) {
					Some(x) => x,
					None => return Err(at(format!("the application was asked {} times, not {}: {}", calls.len(), m.calls.len(), short(call)))),
				};
				ensure!(*user == u, "{}", at(format!("request {}: user {}", k, diff(user, u))));
				ensure!(*service == s, "{}", at(format!("request {}: service {}", k, diff(service, s))));
				ensure!(*call == e, "{}", at(format!("request {}: asked for {}, the client sent {}", k, short(call), short(e))));
				ensure!(accepted == ok, "{}", at(format!("request {}: the offered signature is {} although it should be {}", k, accepted, ok)));
			}
			ensure!(calls.len() == m.calls.len(), "{}", at(format!("the application was asked {} times, not {}", calls.len(), m.calls.len())));
		}
		let got: Vec<&RMsg> = cl.auth_rcvd.iter().map(|x| &x.1).collect();
		for (k, r) in got.iter().enumerate() {
			let e = match m.replies.get(k) {
				Some(e) => e,
				None => return Err(at(format!("unexpected reply {}: {}", k, r.kind))),
			};
			ensure!(r.kind == e.kind, "{}", at(format!("reply {} is {}, expected {}", k, r.kind, e.kind)));
			if r.kind == "ua_failure" {
				let names: Vec<&[u8]> = r.s(0).split(|c| *c == b',').collect();
				ensure!(
					names.contains(&&b"publickey"[..]) && names.contains(&&b"password"[..]) && !r.b(1),
					"{}",
					at(format!("failure with {} {}", hex_short(r.s(0)), r.b(1)))
				);
			} else if what == 15 || r.kind != "ua_pk_ok" {
				ensure!(*r == e, "{}", at(format!("reply {}: {:?}, expected {:?}", k, r, e)));
			}
		}
		ensure!(got.len() == m.replies.len(), "{}", at(format!("{} replies, expected {}", got.len(), m.replies.len())));

		// Nothing is served without success.
		let ok = calls.iter().find(|x| x.4 && !matches!(x.3, AuthCall::Exists { .. })).map(|x| x.0);
		let session = m.replies.iter().any(|r| r.kind == "ua_success");
		ensure!(session == ok.is_some(), "{}", at("the application accepted somebody else".into()));
		for (t, e) in &w.log {
			if let Ev::Spawn { conn, .. } = e {
				if *conn == ci {
					ensure!(ok.map_or(false, |a| a < *t), "{}", at("a program was started without authentication".into()));
				}
			}
		}
		for ch in &cl.chans {
			ensure!(session || ch.state == ChState::Opening, "{}", at("a request to open a channel was answered without authentication".into()));
		}
		if m.odd {
			models.push(m);
			continue;
		}
		for s in &cl.strays {
			return Err(at(s.clone()));
		}
		let ended = w.nets[ci].wr_dropped.is_some();
		ensure!(
			ended == (m.st == St::Ended),
			"{}",
			at(format!("connection {} (state {:?})", if ended { "ended" } else { "still served" }, m.st))
		);
		if m.st == St::Session {
			ensure!(cl.finished(), "{}", at("no answers in the session".into()));
			ensure!(cl.chans.iter().all(|c| c.state == ChState::Open), "{}", at("no channel in the session".into()));
		}
		o.label(session, "success");
		o.label(m.refused > 0 && session, "success after refusal");
		o.label(m.signed > 0, "signed request");
		o.label(m.probes > 0, "probe");
		o.label(m.unasked > 0, "unsupported or malformed request");
		o.label(m.st == St::Ended, "connection ended");
		models.push(m);
	}
	o.label(c.conns.len() > 1, "several connections");
	Ok((models, o))
}

// ------------------------------------------------------------------ generators

fn with_owner(owner: Option<u8>, h: Hex) -> Hex {
	match owner {
		None => h,
		Some(c) => Hex([vec![c], h.0].concat()),
	}
}

fn field(big: bool) -> BoxedStrategy<Hex> {
	if big {
		prop_oneof![
			10 => gen::bytes(),
			1 => (0usize..30_000, any::<u8>()).prop_map(|(n, s)| Hex(content(u64::from(s), 0, n))),
			1 => select(vec![1000usize, 2047, 2048, 2049, 4096, 8192, 16384, 30_000]).prop_map(|n| Hex(content(3, 0, n))),
		]
		.boxed()
	} else {
		prop_oneof![4 => vec(any::<u8>(), 0..12).prop_map(Hex), 1 => gen::bytes()].boxed()
	}
}

fn service() -> BoxedStrategy<Hex> {
	prop_oneof![4 => Just(hx("ssh-connection")), 1 => gen::bytes()].boxed()
}

fn blob(alg: Hex, big: bool) -> BoxedStrategy<Hex> {
	let a = alg.clone();
	prop_oneof![
		6 => field(big).prop_map(move |k| Hex(two_strings(&a, &k))),
		1 => gen::bytes(),
		1 => (field(false), gen::bytes()).prop_map(|(a, k)| Hex(two_strings(&a, &k))),
		1 => (field(false), 0usize..40).prop_map({ let alg = alg.clone(); move |(k, n)| { let mut b = two_strings(&alg, &k); b.truncate(b.len().saturating_sub(n)); Hex(b) } }),
		1 => (field(false), vec(any::<u8>(), 1..6)).prop_map({ let alg = alg.clone(); move |(k, t)| Hex([two_strings(&alg, &k), t].concat()) }),
		1 => (field(false), 0usize..8, any::<u8>()).prop_map(move |(k, i, x)| { let mut b = two_strings(&alg, &k); b[i % 4] = x; Hex(b) }),
	]
	.boxed()
}

fn alg() -> BoxedStrategy<Hex> {
	prop_oneof![4 => Just(hx("ssh-ed25519")), 1 => Just(hx("ssh-rsa")), 1 => gen::bytes(), 1 => Just(hx(""))].boxed()
}

/// An authentication request.
pub fn request(owner: Option<u8>, big: bool) -> BoxedStrategy<Op> {
	let user = field(big).prop_map(move |u| with_owner(owner, u)).boxed();
	let st = gen::bytes();
	let other = |k: &'static str| {
		(user.clone(), gen::of_kind(kind(k), &st)).prop_map(|(u, mut m)| {
			m.v[0] = V::S(u);
			Op::Auth(m)
		})
	};
	let us = || (user.clone(), service());
	prop_oneof![
		3 => us().prop_map(|(u, s)| Op::Auth(RMsg::new("ua_none", vec![V::S(u), V::S(s)]))),
		4 => (us(), field(big)).prop_map(|((u, s), p)| Op::Auth(RMsg::new("ua_password", vec![V::S(u), V::S(s), V::S(p)]))),
		4 => (us(), alg()).prop_flat_map(move |((u, s), a)| (Just((u, s, a.clone())), blob(a, big)))
			.prop_map(|((u, s, a), b)| Op::Auth(RMsg::new("ua_pk_blob", vec![V::S(u), V::S(s), V::S(a), V::S(b)]))),
		3 => (us(), alg()).prop_flat_map(move |((u, s), a)| (Just((u, s, a.clone())), blob(a.clone(), big), blob(a, false)))
			.prop_map(|((u, s, a), b, g)| Op::Auth(RMsg::new("ua_pk_signed", vec![V::S(u), V::S(s), V::S(a), V::S(b), V::S(g)]))),
		7 => (us(), 0u8..4, prop_oneof![2 => Just(0u8), 3 => 0u8..WRONGS]).prop_map(|((user, service), key, wrong)| Op::Sign(SignOp { user, service, key, wrong })),
		1 => other("ua_password_renew"),
		1 => other("ua_hostbased"),
		1 => other("ua_other"),
	]
	.prop_map(|op| match op {
		// Every implementation must be able to receive 32768 bytes; leave the rest out.
		Op::Auth(m) if m.encode().len() > 32768 => {
			let mut m = m;
			for v in &mut m.v {
				if let V::S(s) = v {
					s.0.truncate(8000);
				}
			}
			Op::Auth(m)
		}
		Op::Sign(mut o) => {
			o.user.0.truncate(16_000);
			o.service.0.truncate(8000);
			Op::Sign(o)
		}
		op => op,
	})
	.boxed()
}

fn soft() -> BoxedStrategy<Op> {
	let st = gen::bytes();
	prop_oneof![
		gen::of_kind(kind("ignore"), &st),
		gen::of_kind(kind("debug"), &st),
		gen::of_kind(kind("unimplemented"), &st),
	]
	.prop_map(Op::Misc)
	.boxed()
}

/// Messages that have no place before authentication.
fn early_bird() -> BoxedStrategy<Op> {
	let st = gen::bytes();
	let session = |cn: u32| RMsg::new("open", vec![V::S(hx("session")), V::U(cn), V::U(1000), V::U(1000)]);
	let exec = |ch: u32| {
		let mut d = vec![];
		put_str(&mut d, b"run");
		RMsg::new("request", vec![V::U(ch), V::S(hx("exec")), V::B(true), V::S(Hex(d))])
	};
	prop_oneof![
		3 => (0u32..3).prop_map(session),
		3 => (0u32..3).prop_map(exec),
		1 => Just(RMsg::new("ua_success", vec![])),
		1 => Just(RMsg::new("service_request", vec![V::S(hx("ssh-connection"))])),
		1 => Just(RMsg::new("service_request", vec![V::S(hx("ssh-userauth"))])),
		1 => Just(RMsg::new("service_accept", vec![V::S(hx("ssh-userauth"))])),
		1 => gen::of_kind(kind("ua_pk_ok"), &st),
		1 => gen::of_kind(kind("ua_failure"), &st),
		1 => gen::of_kind(kind("data"), &st),
		1 => Just(RMsg::new("newkeys", vec![])),
		1 => gen::of_kind(kind("kexinit"), &st),
		1 => gen::of_kind(kind("ecdh_init"), &st),
		1 => gen::of_kind(kind("disconnect"), &st),
	]
	.prop_map(|m| Op::Payload(Hex(m.encode())))
	.boxed()
}

fn conn(owner: Option<u8>, big: bool, hostile: bool, max: usize) -> BoxedStrategy<AConn> {
	let w = u32::from(hostile);
	let op = proptest::strategy::Union::new_weighted(vec![
		(12, request(owner, big)),
		(1, soft()),
		(2, Just(Op::Sync).boxed()),
		(1 + w, early_bird()),
	]);
	let first = proptest::strategy::Union::new_weighted(vec![
		(14, Just(Op::Service(hx("ssh-userauth"))).boxed()),
		(w, Just(Op::Service(hx("ssh-connection"))).boxed()),
		(w, gen::bytes().prop_map(Op::Service).boxed()),
		(w, request(owner, false)),
		(w, early_bird()),
		(w, gen::bytes().prop_map(Op::Payload).boxed()),
	].into_iter().filter(|x| x.0 > 0).collect());
	let decision = prop_oneof![3 => Just(Some(false)), 2 => Just(None), 1 => Just(Some(true))];
	(
		(session::net(), 0u8..4),
		vec(soft(), 0..2),
		first,
		vec(op, 0..max),
		vec(decision, 0..max + 2),
		any::<bool>(),
	)
		.prop_map(|((net, early), soft, first, ops, decisions, wait)| {
			let mut v = soft;
			v.push(first);
			for op in ops {
				v.push(op);
				if wait {
					v.push(Op::Sync);
				}
			}
			// Try to use the connection.
			v.push(Op::Settle);
			v.push(Op::Open { ty: hx("session"), cn: 5, window: 5000, max: 5000, auto: true });
			v.push(Op::Sync);
			v.push(Op::Start { ch: 0, prog: 0, want: true });
			v.push(Op::Sync);
			AConn { net, early, ops: v, decisions }
		})
		.boxed()
}

fn case(big: bool, hostile: bool, max: usize) -> BoxedStrategy<ACase> {
	let one = conn(None, big, hostile, max);
	prop_oneof![
		// Very many attempts, all refused but maybe the last
		1 => (session::sched(), conn(None, false, false, 2), vec(request(None, false), 1..4), 10usize..320, any::<bool>())
			.prop_map(|(sched, mut a, reqs, n, last)| {
				let mut ops = vec![Op::Service(hx("ssh-userauth"))];
				ops.extend(reqs.iter().cycle().take(n).cloned());
				ops.push(Op::Sync);
				ops.append(&mut a.ops);
				a.decisions = vec![Some(false); n];
				a.decisions.push(Some(last));
				ops.retain({
					let mut first = true;
					move |o| !matches!(o, Op::Service(_)) || std::mem::take(&mut first)
				});
				ACase { sched, conns: vec![AConn { ops, ..a }] }
			}),
		30 => (session::sched(), one).prop_map(|(sched, a)| ACase { sched, conns: vec![a] }),
		8 => (session::sched(), conn(Some(0), big, hostile, max), conn(Some(1), big, hostile, max))
			.prop_map(|(sched, a, b)| ACase { sched, conns: vec![a, b] }),
	]
	.boxed()
}

fn signatures_apart(c: &ACase, sim: &Sim<Client>) -> Result<(), String> {
	// A request signed for anything else must never verify.
	for (ci, cl) in sim.actors.iter().enumerate() {
		for op in &c.conns[ci].ops {
			if let Op::Sign(s) = op {
				let m = cl.sign_request(s);
				let alg = m.s(2);
				let ok = parse_two(alg, m.s(3)).zip(parse_two(alg, m.s(4))).map_or(false, |(k, g)| {
					verifies(alg, k, g, &signed_data(&cl.t.info.sid, m.s(0), m.s(1), alg, m.s(3)))
				});
				if ok != (s.wrong == 0) {
					return Err(format!("{}: signature {:?} verifies: {}", HARNESS_ERROR, s, ok));
				}
			}
		}
	}
	Ok(())
}

pub struct C14;
impl Prop for C14 {
	type Case = ACase;
	const ID: &'static str = "C14";
	fn rule(&self) -> &'static str {
		"Histories of service, authentication, ignorable and out-of-place messages on one or two connections, with generated decisions of the application, pipelined or waiting, ending with an attempt to open a channel and start a program. A model of RFC 4252 gives the replies; channels and programs may only follow an accepted request. Non-trivial: a refusal, an unsupported request or an out-of-place message."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(60_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<ACase> {
		case(false, true, 9)
	}
	fn fixed(&self, _: Tier) -> Vec<ACase> {
		// "Any number of times"
		let req = |k: &str, v: Vec<&str>| Op::Auth(RMsg::new(k, [vec!["u", "ssh-connection"], v].concat().into_iter().map(|x| V::S(hx(x))).collect()));
		let some = [req("ua_none", vec![]), req("ua_password", vec!["p"]), req("ua_pk_blob", vec!["a", "\0\0\0\u{1}a\0\0\0\0"])];
		// The longest not in mutation campaigns
		[1030usize, 4100, if std::env::var_os("VP_SCALE").is_some() { 10 } else { 66_000 }]
			.iter()
			.map(|n| {
				let mut ops = vec![Op::Service(hx("ssh-userauth"))];
				ops.extend(some.iter().cycle().take(*n).cloned());
				ops.push(Op::Sync);
				ops.push(some[1].clone());
				ops.extend([
					Op::Sync,
					Op::Open { ty: hx("session"), cn: 5, window: 5000, max: 5000, auto: true },
					Op::Sync,
					Op::Start { ch: 0, prog: 0, want: true },
					Op::Sync,
				]);
				let mut decisions = vec![Some(false); *n];
				decisions.push(Some(true));
				ACase { sched: Sched::plain(), conns: vec![AConn { net: NetCfg::plain(), early: 0, ops, decisions }] }
			})
			.collect()
	}
	fn max_shrink(&self) -> u32 {
		1500
	}
	fn check(&self, c: &ACase) -> Verdict {
		let sim = c.run();
		let (models, mut o) = compare(c, &sim, 14)?;
		o.label(models.iter().any(|m| m.refused + m.unasked > 20), "more than 20 refusals");
		o.nontrivial = models.iter().any(|m| m.refused + m.unasked > 0 || m.st == St::Ended);
		Ok(o)
	}
}

pub struct C15;
impl Prop for C15 {
	type Case = ACase;
	const ID: &'static str = "C15";
	fn rule(&self) -> &'static str {
		"Histories of authentication requests with any user, service, password, algorithm, key and signature bytes (up to 30 kB), really signed Ed25519 requests that are right or wrong in one respect (session, user, service, key, algorithm, flag, blob), and malformed blobs. The log of the application's calls must equal what the client sent, with the RFC 4252 section 7 data for signatures. Non-trivial: a signed request or probe reached the application."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["requests of more than 32768 bytes are not judged", "ed25519-dalek is correct"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(60_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<ACase> {
		case(true, false, 8)
	}
	fn max_shrink(&self) -> u32 {
		1500
	}
	fn check(&self, c: &ACase) -> Verdict {
		let sim = c.run();
		let (models, mut o) = compare(c, &sim, 15)?;
		signatures_apart(c, &sim)?;
		o.nontrivial = models.iter().any(|m| m.signed + m.probes > 0);
		let big = sim.actors.iter().any(|a| a.payloads_sent.iter().any(|p| p.1.len() > 4096));
		o.label(big, "request of more than 4 kB");
		Ok(o)
	}
}
