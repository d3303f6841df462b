//! C13, C16: hostile clients next to good ones, and tampering with good ones.
use crate::{auth, gen, hs, rmsg::*, runner::*, sclient::*, session::*, sim::*, tclient::*, util::*};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TCase {
	pub sched: Sched,
	pub conn: SConn,
	/// Number of the encrypted packet
	pub at: u32,
	pub how: Tamper,
	/// What follows the session: so many bytes, then the end
	pub junk: u32,
}

fn run_tampered(c: &TCase, reference: bool) -> Sim<Client> {
	let ex = expect(1, SERVER_IDENT.as_bytes());
	let mut cfg = c.conn.client.clone();
	cfg.ops.push(Op::Settle);
	cfg.ops.push(Op::Raw(Hex(content(99, 0, 70_000 + c.junk as usize))));
	cfg.ops.push(Op::Cut);
	let mut cl = Client::new(0, cfg, c.conn.progs.clone(), ex);
	if reference {
		let after = matches!(c.how, Tamper::Append(_) | Tamper::Twice);
		cl.t.stop_at = Some(c.at + u32::from(after));
	} else {
		cl.t.tamper = Some((c.at, c.how.clone()));
	}
	let mut sim = Sim::new(
		c.sched.clone(),
		SERVER_IDENT.as_bytes(),
		1,
		Decide::Everyone,
		vec![cl],
		vec![c.conn.net.clone()],
		vec![c.conn.progs.clone()],
	);
	sim.run();
	sim
}

fn effects(sim: &Sim<Client>) -> Vec<String> {
	sim.w()
		.log
		.iter()
		.filter_map(|(_, e)| match e {
			Ev::Auth { user, service, call, accepted } => Some(format!("authenticate {} {} {:?} {}", hex(user), hex(service), call, accepted)),
			Ev::Spawn { shell, command, .. } => Some(format!("start {} {}", shell, hex(command))),
			_ => None,
		})
		.collect()
}

fn replies(c: &Chan) -> Vec<Rcv> {
	c.rcvd.iter().filter(|x| matches!(x.1, Rcv::Success | Rcv::Failure)).map(|x| x.1.clone()).collect()
}

fn tamper() -> BoxedStrategy<Tamper> {
	prop_oneof![
		3 => (-17i32..0, 0u8..8).prop_map(|(o, b)| Tamper::Flip(o, b)),
		3 => (0i32..6, 0u8..8).prop_map(|(o, b)| Tamper::Flip(o, b)),
		2 => (0i32..4000, 0u8..8).prop_map(|(o, b)| Tamper::Flip(o, b)),
		1 => any::<u32>().prop_map(Tamper::Truncate),
		1 => (any::<u32>(), 0u8..40).prop_map(|(a, b)| Tamper::Delete(a, b)),
		2 => Just(Tamper::Drop),
		2 => Just(Tamper::Twice),
		2 => any::<u16>().prop_map(Tamper::Replay),
		1 => any::<u16>().prop_map(Tamper::Replace),
		2 => Just(Tamper::Swap),
		1 => gen::bytes().prop_map(Tamper::Insert),
		1 => gen::bytes().prop_map(Tamper::Append),
		2 => any::<u8>().prop_map(Tamper::Foreign),
		2 => any::<u16>().prop_map(Tamper::Reflect),
		1 => Just(Tamper::Plain),
		2 => (-3i8..4).prop_map(Tamper::Renumber),
		1 => Just(Tamper::ZeroTag),
	]
	.boxed()
}

pub struct C16;
impl Prop for C16 {
	type Case = TCase;
	const ID: &'static str = "C16";
	fn rule(&self) -> &'static str {
		"A generated session whose encrypted stream is tampered with at a generated packet (bits, lost or added bytes, dropped, repeated, replayed, exchanged, foreign, reflected or unencrypted packets), followed by more of the client's packets, junk and the end of the stream; differential against the same run in which the client falls silent at that point. Application calls and the server's replies must be equal, inputs of programs a prefix, and the connection must have ended. Non-trivial: the tampered packet was sent (not only the junk)."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(36_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<TCase> {
		(sched(), conn(0, Focus::Mixed, 12), prop_oneof![2 => 0u32..24, 1 => 0u32..8], tamper(), prop_oneof![1 => Just(0u32), 1 => 0u32..4000])
			.prop_map(|(sched, conn, at, how, junk)| TCase { sched, conn, at, how, junk })
			.boxed()
	}
	fn max_shrink(&self) -> u32 {
		1500
	}
	fn check(&self, c: &TCase) -> Verdict {
		let a = run_tampered(c, false);
		let b = run_tampered(c, true);
		for s in [&a, &b] {
			if let Some(p) = &s.panic {
				return Err(format!("the server stopped: {}", p));
			}
		}
		ensure!(!(a.overrun || b.overrun), "the server never comes to rest");
		let (ca, cb) = (&a.actors[0], &b.actors[0]);
		if let Some(e) = &ca.t.err {
			return Err(format!("the server's output is wrong: {}", e));
		}
		ensure!(ca.t.tampered, "the session cannot go on: operation {} of {}", ca.pc, ca.cfg.ops.len());
		let (ea, eb) = (effects(&a), effects(&b));
		for (i, (x, y)) in ea.iter().zip(&eb).enumerate() {
			ensure!(x == y, "application call {}: {}, untampered {}", i, x, y);
		}
		ensure!(ea.len() <= eb.len(), "tampering made the application be asked to {}", ea[eb.len()]);
		ensure!(ea.len() == eb.len(), "requests from before the tampering got lost: {}", eb[ea.len()]);
		let kinds = |c: &Client| c.auth_rcvd.iter().map(|x| x.1.clone()).collect::<Vec<_>>();
		let (ka, kb) = (kinds(ca), kinds(cb));
		ensure!(ka == kb, "replies to authentication: {:?}, untampered {:?}", ka, kb);
		for (k, ch) in ca.chans.iter().enumerate() {
			let other = cb.chans.get(k);
			let open = other.map_or(ChState::Opening, |o| o.state.clone());
			ensure!(
				ch.state == open,
				"channel {}: {:?}, untampered {:?}", k, ch.state, open
			);
			if let Some(o) = other {
				let (ra, rb) = (replies(ch), replies(o));
				// A request that crosses the server's close gets no reply; when
				// the program ends is a matter of the schedule.
				let ended = ch.rcvd_close || o.rcvd_close;
				ensure!(ra == rb || (ended && (ra.starts_with(&rb) || rb.starts_with(&ra))), "channel {}: replies {:?}, untampered {:?}", k, ra, rb);
			}
		}
		let (wa, wb) = (a.w(), b.w());
		let starts = starts_of(cb);
		let spawned = wb.log.iter().filter_map(|(_, e)| if let Ev::Spawn { inst, .. } = e { Some(*inst) } else { None });
		for ((_, k, _), inst) in starts.iter().zip(spawned) {
			let Some(n) = inst else { continue };
			let (before, after, _) = sent_input(cb, &cb.chans[*k]);
			let full = content(cb.owner(*k), before as usize, after as usize);
			ensure!(
				full.starts_with(&wa.insts[n].input),
				"input of the program on channel {}: {}", k, diff(&wa.insts[n].input, &full)
			);
		}
		ensure!(wa.nets[0].wr_dropped.is_some(), "the connection is still served");
		let mut obs = Obs::new(ca.t.tampered_in_packet());
		obs.inner = a.polls + b.polls;
		let l = match c.how {
			Tamper::Flip(0..=3, _) => "length changed",
			Tamper::Flip(-16..=-1, _) => "tag changed",
			Tamper::Flip(..) => "bit changed",
			Tamper::Truncate(_) | Tamper::Delete(..) => "bytes lost",
			Tamper::Drop => "packet lost",
			Tamper::Twice | Tamper::Replay(_) | Tamper::Replace(_) => "packet replayed",
			Tamper::Swap => "packets exchanged",
			Tamper::Insert(_) | Tamper::Append(_) => "bytes added",
			Tamper::Foreign(_) => "other keys",
			Tamper::Reflect(_) => "reflected",
			Tamper::Plain => "not encrypted",
			Tamper::Renumber(_) => "other packet number",
			Tamper::ZeroTag => "tag changed",
		};
		obs.label(ca.t.tampered_in_packet(), l);
		obs.label(wa.insts.len() > 0, "program running");
		obs.label(!cb.authed, "during authentication");
		Ok(obs)
	}
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HCase {
	pub s: SCase,
	/// The first so many connections are good ones
	pub good: u8,
}

fn chan_no() -> BoxedStrategy<u32> {
	prop_oneof![4 => 0u32..4, 1 => any::<u32>(), 1 => Just(u32::MAX)].boxed()
}

fn weird_message() -> BoxedStrategy<Hex> {
	let st = gen::bytes();
	let on_channel: Vec<BoxedStrategy<RMsg>> = MESSAGES
		.iter()
		.filter(|k| k.num >= 91)
		.map(|k| {
			(gen::of_kind(k, &st), chan_no())
				.prop_map(|(mut m, n)| {
					m.v[0] = V::U(n);
					m
				})
				.boxed()
		})
		.collect();
	let session_req: Vec<BoxedStrategy<(Hex, Hex)>> = SESSION
		.iter()
		.map(|k| gen::of_kind(k, &st).prop_map(|m| (hx(&m.kind), Hex(m.encode_session()))).boxed())
		.collect();
	let requests = (chan_no(), Union::new(session_req), any::<bool>())
		.prop_map(|(n, (t, d), w)| RMsg::new("request", vec![V::U(n), V::S(t), V::B(w), V::S(d)]));
	let any_msg = prop_oneof![
		6 => Union::new(on_channel),
		3 => requests,
		4 => gen::message(MESSAGES),
	];
	prop_oneof![
		6 => any_msg.clone().prop_map(|m| { let mut e = m.encode(); e.truncate(34_000); Hex(e) }),
		3 => (any_msg.clone(), any::<u16>(), any::<u8>()).prop_map(|(m, i, b)| {
			let mut e = m.encode();
			e.truncate(34_000);
			let i = usize::from(i) % e.len();
			e[i] = b;
			Hex(e)
		}),
		2 => (any_msg, any::<u16>()).prop_map(|(m, i)| {
			let mut e = m.encode();
			e.truncate(usize::from(i) % (e.len() + 1));
			Hex(e)
		}),
		1 => gen::bytes(),
		1 => any::<u8>().prop_map(|b| Hex(vec![b])),
		1 => Just(Hex(vec![])),
		// More data than fits anywhere
		1 => (chan_no(), prop_oneof![Just(32769usize), Just(34_000), Just(34_900), Just(34_960)]).prop_map(|(n, l)| {
			Hex(RMsg::new("data", vec![V::U(n), V::S(Hex(content(1, 0, l)))]).encode())
		}),
		1 => (any::<u8>(), 32_000usize..34_970).prop_map(|(b, l)| Hex(vec![b; l])),
	]
	.boxed()
}

fn hostile_op() -> BoxedStrategy<Vec<Op>> {
	prop_oneof![
		10 => weird_message().prop_map(|m| vec![Op::Payload(m)]),
		6 => op(Focus::Mixed).prop_map(|o| vec![o]),
		2 => (gen::bytes(), -40i32..40, prop_oneof![Just(0i32), -255i32..255]).prop_map(|(p, l, q)| vec![Op::Framed(p, l, q)]),
		1 => gen::bytes().prop_map(|b| vec![Op::Raw(b)]),
		1 => Just(vec![Op::Cut]),
		1 => Just(vec![Op::Reset]),
		1 => Just(vec![Op::Deaf]),
		1 => any::<u8>().prop_map(|c| vec![Op::Deaf, Op::Start { ch: c, prog: 0, want: true }]),
		// Ignoring the window
		1 => (0u32..3, 2usize..12).prop_map(|(n, k)| {
			vec![Op::Payload(Hex(RMsg::new("data", vec![V::U(n), V::S(Hex(content(1, 0, 32768)))]).encode())); k]
		}),
		1 => (0u32..3, vec(any::<u32>(), 1..4)).prop_map(|(n, v)| {
			v.into_iter()
				.chain([u32::MAX])
				.map(|a| Op::Payload(Hex(RMsg::new("window_adjust", vec![V::U(n), V::U(a)]).encode())))
				.collect()
		}),
		// Close twice, use after close
		1 => (chan_no(), weird_message()).prop_map(|(n, m)| {
			let c = Op::Payload(Hex(RMsg::new("close", vec![V::U(n)]).encode()));
			vec![c.clone(), c, Op::Payload(m)]
		}),
		// Somebody else's name
		1 => gen::bytes().prop_map(|u| vec![Op::Auth(RMsg::new("ua_none", vec![V::S(if u.starts_with(b"conn-") { hx("x") } else { u }), V::S(hx("ssh-connection"))]))]),
	]
	.boxed()
}

pub fn hostile(id: usize) -> BoxedStrategy<SConn> {
	let hs = prop_oneof![
		2 => (0u8..4).prop_map(move |e| { let mut h = HsCfg::plain(id as u64 + 50); h.early = e; h }),
		1 => hs::faulty(),
	];
	// Before authentication, in a session without and with a program
	let ops = prop_oneof![
		1 => vec(hostile_op(), 0..6).prop_map(|v| v.concat()),
		1 => vec(prop_oneof![3 => auth::request(Some(b'x'), true).prop_map(|o| vec![o]), 1 => hostile_op()], 0..8)
			.prop_map(|v| [vec![Op::Service(hx("ssh-userauth"))], v.concat()].concat()),
		1 => vec(hostile_op(), 1..8).prop_map(move |v| [login(id, true), v.concat()].concat()),
		4 => (vec(hostile_op(), 1..8), 0u32..4, any::<bool>(), prop_oneof![Just(0u32), 0u32..500, Just(u32::MAX)], prop_oneof![Just(0u32), 1u32..500, Just(u32::MAX)]).prop_map(move |(v, cn, wait, window, max)| {
			let mut o = login(id, wait);
			o.push(Op::Open { ty: hx("session"), cn, window, max, auto: true });
			o.push(Op::Start { ch: 0, prog: 0, want: true });
			o.extend(v.concat());
			o
		}),
	];
	(net(), hs, ops, vec(prog(Focus::Mixed), 1..3), 0u8..3)
		.prop_map(|(net, hs, ops, progs, after)| SConn {
			net,
			client: ClientCfg { hs, ops, after, auto_close: true, fill: 0 },
			progs,
		})
		.boxed()
}

/// Good clients and hostile ones
pub fn hcase() -> BoxedStrategy<HCase> {
	let g = |i| conn(i, Focus::Mixed, 8);
	prop_oneof![
		3 => (sched(), g(0), 0u8..2, hostile(1)).prop_map(|(sched, mut a, after, h)| {
			a.client.after = after;
			let mut h = h;
			h.client.after = 0;
			HCase { s: SCase { sched, conns: vec![a, h] }, good: 1 }
		}),
		2 => (sched(), g(0), g(1), 0u8..2, hostile(2)).prop_map(|(sched, a, mut b, after, h)| {
			// The second good client comes after the first one, or when the first two got somewhere
			b.client.after = after;
			HCase { s: SCase { sched, conns: vec![a, b, h] }, good: 2 }
		}),
		2 => (sched(), g(0), hostile(1), hostile(2)).prop_map(|(sched, a, h, k)| {
			HCase { s: SCase { sched, conns: vec![a, h, k] }, good: 1 }
		}),
	]
	.boxed()
}

/// Very many clients who do not get on, then a good one
fn crowd() -> BoxedStrategy<HCase> {
	let stalled = (0u8..8, 0u32..1100, 0u8..4).prop_map(|(stage, n, early)| {
		let mut hs = HsCfg::plain(u64::from(n) + 300);
		hs.early = early;
		let service = Op::Service(hx("ssh-userauth"));
		let refused = Op::Auth(RMsg::new("ua_password", vec![V::S(hx("x")), V::S(hx("ssh-connection")), V::S(hx("y"))]));
		let ops = match stage {
			0..=3 => {
				hs.fault = Fault::Garbage(if stage == 0 { 0 } else { n }, Hex(vec![]));
				vec![]
			}
			4 => vec![],
			5 => vec![service],
			6 => vec![service, Op::Sync, refused],
			_ => {
				let mut v = login(0, true);
				v.extend([Op::Open { ty: hx("session"), cn: 0, window: 100, max: 100, auto: true }, Op::Start { ch: 0, prog: 0, want: true }]);
				v
			}
		};
		let progs = vec![ProgSpec { refuse: false, stdin: true, stdout: true, stderr: true, accept: None, script: vec![PEv::Out(false, n * 3)], command: hx("y") }];
		SConn { net: NetCfg::plain(), client: ClientCfg { hs, ops, after: 0, auto_close: true, fill: 0 }, progs }
	});
	let kinds = vec(stalled, 1..4);
	(sched(), conn(0, Focus::Mixed, 6), kinds, prop_oneof![1 => 5usize..40, 1 => 40usize..270])
		.prop_map(|(mut sched, mut a, kinds, n)| {
			sched.noise = false;
			a.client.after = LAST as u8;
			let mut conns = vec![a];
			for (i, k) in kinds.iter().cycle().take(n).enumerate() {
				let mut k = k.clone();
				for o in &mut k.client.ops {
					if let Op::Auth(m) = o {
						if m.s(0) == b"conn-0" {
							*m = ua_none(format!("conn-{}", i + 1).as_bytes());
						}
					}
				}
				conns.push(k);
			}
			HCase { s: SCase { sched, conns }, good: 1 }
		})
		.boxed()
}

pub struct C13;
impl Prop for C13 {
	type Case = HCase;
	const ID: &'static str = "C13";
	fn rule(&self) -> &'static str {
		"One or two well-behaved reference clients with generated sessions, and one or two hostile ones: faulty handshakes, malformed or out-of-place messages at any stage, window overruns, bad packet framing, cut, reset or unread connections, unlucky programs; or up to 270 clients who stall at any stage before a good one comes. The server must neither panic nor return, and the good clients (some connect after the hostile ones) must be served as if alone. Non-trivial: a hostile client did something and a good one had a program."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["the application's handlers themselves do not panic", "resource exhaustion is not explored"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(36_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<HCase> {
		prop_oneof![100 => hcase(), 1 => crowd()].boxed()
	}
	fn fixed(&self, _: Tier) -> Vec<HCase> {
		// Packets of every size around those of buffers, in every stage of a connection
		let good = || SConn {
			net: NetCfg::plain(),
			client: ClientCfg {
				hs: HsCfg::plain(1),
				ops: [
					login(0, true),
					vec![
						Op::Open { ty: hx("session"), cn: 3, window: 1000, max: 1000, auto: true },
						Op::Start { ch: 0, prog: 0, want: true },
						Op::Data { ch: 0, len: 100, chunk: 40 },
					],
				]
				.concat(),
				after: 1,
				auto_close: true,
				fill: 0,
			},
			progs: vec![ProgSpec { refuse: false, stdin: true, stdout: true, stderr: true, accept: None, script: vec![PEv::Out(false, 300), PEv::Exit(3)], command: hx("x") }],
		};
		let case = |hs: HsCfg, ops: Vec<Op>| HCase {
			s: SCase {
				sched: Sched::plain(),
				conns: vec![good(), SConn { net: NetCfg::plain(), client: ClientCfg { hs, ops, after: 0, auto_close: true, fill: 0 }, progs: good().progs }],
			},
			good: 1,
		};
		let mut v = vec![];
		for n in (34_900u32..35_100).chain(65_480..65_600).chain(0..40) {
			let mut h = HsCfg::plain(70);
			let line = h.ident.len() as u32 + 2;
			h.fault = Fault::Garbage(line, Hex([&n.to_be_bytes()[..], &[4, 20], &content(3, 0, n as usize + 100)].concat()));
			v.push(case(h, vec![]));
		}
		for n in (34_500usize..35_100).step_by(8).chain((65_100..65_600).step_by(8)) {
			let mut h = HsCfg::plain(71);
			h.lists[8] = Hex(vec![b'l'; n]);
			v.push(case(h, vec![]));
		}
		for n in (34_880usize..35_080).step_by(4).chain((32_700..32_800).step_by(8)) {
			let mut m = RMsg::new("ignore", vec![V::S(Hex(vec![]))]).encode();
			m.resize(n, 0);
			m[1..5].copy_from_slice(&(n as u32 - 5).to_be_bytes());
			let tail = Op::Raw(Hex(content(4, 0, 64)));
			v.push(case(HsCfg::plain(72), vec![Op::Payload(Hex(m.clone())), tail.clone()]));
			for d in [0, -3, 5] {
				v.push(case(HsCfg::plain(73), [login(1, true), vec![Op::Framed(Hex(m.clone()), d, 0), tail.clone()]].concat()));
			}
		}
		v
	}
	fn max_shrink(&self) -> u32 {
		1500
	}
	fn check(&self, c: &HCase) -> Verdict {
		let sim = run_case(&c.s);
		if let Some(p) = &sim.panic {
			return Err(format!("the server stopped: {}", p));
		}
		ensure!(!sim.overrun, "the server never comes to rest");
		// Clients which never came because they wait for a hostile one are not judged.
		let who: Vec<usize> = (0..usize::from(c.good)).filter(|i| sim.is_connected(*i)).collect();
		let r = judge(&sim, &who);
		let mut o = Obs::default();
		if let Some(f) = r.findings.first() {
			// Is it the fault of the others?
			let mut alone = c.clone();
			alone.s.conns.truncate(usize::from(c.good));
			for x in &mut alone.s.conns {
				x.client.after = 0;
			}
			let asim = run_case(&alone.s);
			let who: Vec<usize> = (0..alone.s.conns.len()).collect();
			if asim.panic.is_none() && judge(&asim, &who).findings.is_empty() {
				return Err(f.1.clone());
			}
			o.label(true, "good client not served even alone");
			return Ok(o);
		}
		let h = &sim.actors[usize::from(c.good)..];
		let did = h.iter().any(|h| h.t.all.len() > 30);
		o.nontrivial = did && r.programs > 0;
		o.inner = sim.polls;
		let w = sim.w();
		for (k, cl) in h.iter().enumerate() {
			let k = k + usize::from(c.good);
			let ended = w.nets[k].wr_dropped.is_some();
			o.label(!cl.t.established(), "hostile handshake");
			o.label(cl.t.established() && !cl.authed, "hostile before authentication");
			o.label(cl.authed, "hostile in a session");
			o.label(ended, "hostile connection ended");
			o.label(cl.authed && ended, "hostile session ended");
			o.label(cl.authed && !ended, "hostile session continues");
			let (eof, reset) = cl.closing();
			o.label(eof, "cut");
			o.label(reset, "reset");
			o.label(cl.deaf(), "does not read");
		}
		o.label(h.len() > 2, "crowd");
		o.label(h.len() > 100, "crowd of more than 100");
		labels(&mut o, &c.s, &sim, &r);
		Ok(o)
	}
}

