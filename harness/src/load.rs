//! C30-C32: busy clients and programs; what is left of connections and programs; memory.
use crate::{gen, hostile, mem::Meter, rmsg::*, runner::*, sclient::*, session::*, sim::*, tclient::*, util::*};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};

/// What a client never stops doing.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Kind {
	/// Bytes before the identification line, repeated
	Junk(Hex),
	/// Messages before asking for a service
	Before(Vec<RMsg>),
	/// Messages before authentication succeeds
	Auth(Vec<RMsg>),
	/// Messages in a session
	Session(Vec<RMsg>),
	/// Messages on a channel, with or without a program that reads everything
	Channel(bool, Vec<RMsg>),
	/// Programs write: on stdout, stderr; how many programs
	Output(bool, bool, u8),
	/// A program reads
	Input(u32),
	/// Channels are opened and closed, with or without a program, next to so many that stay open
	Cycles(bool, u8),
	/// More data than the window allows: length of the messages, how much of it a program reads, if there is one
	Flood(u32, Option<u32>),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Busy {
	pub kind: Kind,
	pub net: NetCfg,
	/// Does not read what the server sends
	pub deaf: bool,
	pub after: u8,
}

fn reader(script: Vec<PEv>) -> ProgSpec {
	ProgSpec { refuse: false, stdin: true, stdout: true, stderr: true, accept: None, script, command: hx("busy") }
}

/// A connection which does `n` things.
fn busy_conn(b: &Busy, id: usize, n: u32) -> SConn {
	let mut hs = HsCfg::plain(id as u64 + 200);
	let mut progs = vec![reader(vec![])];
	let open = Op::Open { ty: hx("session"), cn: 1, window: u32::MAX, max: 1 << 15, auto: true };
	let deaf: Vec<Op> = if b.deaf { vec![Op::Deaf] } else { vec![] };
	let burst = |msgs: &Vec<RMsg>, ch| vec![Op::Burst { n, msgs: msgs.clone(), ch }];
	let ops = match &b.kind {
		Kind::Junk(line) => {
			let mut all = vec![];
			while all.len() < n as usize * 2 {
				all.extend_from_slice(line);
				all.push(b'.');
			}
			hs.preface = vec![Hex(all)];
			hs.early = 1;
			login(id, true)
		}
		Kind::Before(m) => [deaf, burst(m, None), login(id, true)].concat(),
		Kind::Auth(m) => [vec![Op::Service(hx("ssh-userauth")), Op::Sync], deaf, burst(m, None), login(id, true)[2..].to_vec()].concat(),
		Kind::Session(m) => [login(id, true), deaf, burst(m, None)].concat(),
		Kind::Channel(prog, m) => {
			let start = if *prog { vec![Op::Start { ch: 0, prog: 0, want: true }] } else { vec![] };
			[login(id, true), vec![open], start, vec![Op::Sync], deaf, burst(m, Some(0))].concat()
		}
		Kind::Output(a, e, k) => {
			let mut script = vec![];
			if *a || !*e {
				script.push(PEv::Out(false, n * 220));
			}
			if *e {
				script.push(PEv::Out(true, n * 220));
			}
			script.extend([PEv::End(false, false), PEv::End(true, false), PEv::Exit(0)]);
			progs = vec![reader(script)];
			let mut o = login(id, true);
			for i in 0..*k {
				o.push(open.clone());
				o.push(Op::Start { ch: i, prog: 0, want: true });
			}
			o.extend(deaf);
			o
		}
		Kind::Input(chunk) => {
			let len = n * chunk;
			[login(id, true), vec![open, Op::Start { ch: 0, prog: 0, want: true }, Op::Sync, Op::Data { ch: 0, len, chunk: *chunk }]].concat()
		}
		Kind::Flood(len, reads) => {
			progs[0].accept = Some(reads.unwrap_or(0));
			let start = reads.map(|_| Op::Start { ch: 0, prog: 0, want: true });
			let data = vec![RMsg::new("data", vec![V::U(0), V::S(Hex(content(7, 0, *len as usize)))])];
			[login(id, true), vec![open], start.into_iter().collect(), vec![Op::Sync], deaf, burst(&data, Some(0))].concat()
		}
		Kind::Cycles(prog, others) => {
			progs = vec![reader(vec![PEv::Out(false, 10), PEv::Out(true, 300), PEv::End(false, false), PEv::End(true, false), PEv::Exit(1)])];
			let others = (0..u32::from(*others)).map(|i| Op::Payload(Hex(RMsg::new("open", vec![V::S(hx("session")), V::U(1000 + i), V::U(0), V::U(0)]).encode())));
			[login(id, true), others.collect(), vec![Op::Cycles { left: n / 3, prog: prog.then(|| 0), stage: 0 }]].concat()
		}
	};
	SConn {
		net: b.net.clone(),
		client: ClientCfg { hs, ops, after: b.after, auto_close: true, fill: 0 },
		progs,
	}
}

fn small(kinds: &[&'static str]) -> BoxedStrategy<RMsg> {
	let st = prop_oneof![2 => (0usize..40).prop_map(|n| Hex(content(n as u64, 0, n))), 1 => gen::bytes().prop_map(|mut b| { b.0.truncate(60); b })].boxed();
	Union::new(kinds.iter().map(|k| gen::of_kind(kind(k), &st)).collect::<Vec<_>>())
		.prop_map(|mut m| {
			// Nobody who is let in
			if m.kind.starts_with("ua_") {
				m.v[0] = V::S(hx("nobody"));
			}
			m
		})
		.prop_filter("large", |m| m.encode().len() < 400)
		.boxed()
}

const NOTHING: [&str; 3] = ["ignore", "debug", "unimplemented"];
const LOGINS: [&str; 7] = ["ua_none", "ua_password", "ua_pk_blob", "ua_pk_signed", "ua_password_renew", "ua_hostbased", "ua_other"];

/// `grows`: also what makes the server keep more and more
fn busy(grows: bool) -> BoxedStrategy<Busy> {
	let nothing = || small(&NOTHING);
	let u = |x: u32| V::U(x);
	let s = |x: &[u8]| V::S(Hex(x.to_vec()));
	let unknown_open = RMsg::new("open", vec![s(b"x11"), u(4), u(5), u(6)]);
	let more_channels = RMsg::new("open", vec![s(b"session"), u(4), u(5), u(6)]);
	let far_close = RMsg::new("close", vec![u(0xffff_fff0)]);
	let mut session = vec![
		(3, nothing()),
		(2, small(&LOGINS)),
		(1, Just(unknown_open).boxed()),
		(1, Just(far_close).boxed()),
	];
	if grows {
		session.push((1, Just(more_channels).boxed()));
	}
	// The shorter run is beyond the window, too.
	let flood = (200u32..1000, prop_oneof![1 => Just(None), 3 => Just(Some(0u32)), 1 => (0u32..3000).prop_map(Some)]);
	let on_channel = |prog: bool| {
		let z = u(0);
		Union::new_weighted(vec![
			(3, Just(RMsg::new("data", vec![z.clone(), s(b"")])).boxed()),
			(2, Just(RMsg::new("data", vec![z.clone(), s(b"y")])).boxed()),
			(1, (0u32..3).prop_map({ let z = z.clone(); move |t| RMsg::new("extended_data", vec![z.clone(), V::U(t), V::S(Hex(vec![]))]) }).boxed()),
			(2, (0u32..2).prop_map({ let z = z.clone(); move |n| RMsg::new("window_adjust", vec![z.clone(), V::U(n)]) }).boxed()),
			(1, Just(RMsg::new("eof", vec![z.clone()])).boxed()),
			(2, (any::<bool>(), prop_oneof![Just("env"), Just("pty-req"), Just("exec"), Just("signal"), Just("?")]).prop_map({ let z = z.clone(); move |(w, t)| RMsg::new("request", vec![z.clone(), V::S(hx(t)), V::B(w), V::S(Hex(vec![0; 3]))]) }).boxed()),
			(1, nothing()),
		])
		.prop_filter("data nobody reads", move |m| prog || m.kind != "data" || m.v[1] == V::S(Hex(vec![])))
	};
	let kind = prop_oneof![
		2 => prop_oneof![Just(hx("")), Just(hx("x\r\n")), Just(hx("SSH")), Just(hx("S\r\n\r")), gen::bytes()]
			.prop_filter("an identification", |b| !b.windows(4).any(|w| w == b"SSH-") && b.len() < 2000)
			.prop_map(Kind::Junk),
		2 => vec(nothing(), 1..4).prop_map(Kind::Before),
		3 => vec(prop_oneof![1 => nothing(), 2 => small(&LOGINS)], 1..4).prop_map(Kind::Auth),
		3 => vec(Union::new_weighted(session), 1..4).prop_map(Kind::Session),
		4 => vec(on_channel(true), 1..4).prop_map(|m| Kind::Channel(true, m)),
		2 => vec(on_channel(false), 1..4).prop_map(|m| Kind::Channel(false, m)),
		4 => (any::<bool>(), any::<bool>(), 1u8..4).prop_map(|(a, e, k)| Kind::Output(a, e, k)),
		1 => (1u32..80).prop_map(Kind::Input),
		1 => (any::<bool>(), prop_oneof![1 => Just(0u8), 1 => any::<u8>()]).prop_map(|(p, o)| Kind::Cycles(p, o)),
		1 => flood.prop_map(|(l, r)| Kind::Flood(l, r)),
	];
	(kind, prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2), 1 => Just(3)])
		.prop_map(|(kind, buffered)| Busy { kind, net: NetCfg { buffered, ..NetCfg::plain() }, deaf: false, after: 0 })
		.boxed()
}

fn busy_sched() -> BoxedStrategy<Sched> {
	(prop_oneof![3 => Just(3u8), 1 => 0u8..3], vec(any::<u8>(), 0..32), any::<u64>(), any::<u64>())
		.prop_map(|(mode, tape, rng, select)| Sched { mode, tape: Hex(tape), noise: false, handler_yields: 0, rng, select })
		.boxed()
}

fn kind_label(k: &Kind) -> &'static str {
	match k {
		Kind::Junk(_) => "busy before identification",
		Kind::Before(_) => "busy before the service request",
		Kind::Auth(_) => "busy in authentication",
		Kind::Session(_) => "busy in a session",
		Kind::Channel(..) => "busy on a channel",
		Kind::Output(..) => "busy programs",
		Kind::Input(_) => "busy input",
		Kind::Cycles(..) => "busy opening and closing channels",
		Kind::Flood(..) => "more data than the window allows",
	}
}

// ------------------------------------------------------------------ C30

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum BCase {
	/// Busy clients next to each other and to a good one
	Busy { sched: Sched, good: Option<SConn>, busy: Vec<Busy>, n: u32 },
	/// Whatever happened, a server without anything to do does nothing
	Idle(hostile::HCase),
}

/// How much the server may do elsewhere before it turns to somebody, for each of the others.
const PATIENCE: u64 = 400;

pub struct C30;
impl Prop for C30 {
	type Case = BCase;
	const ID: &'static str = "C30";
	fn rule(&self) -> &'static str {
		"Two to four connections whose clients or programs have more for the server at once than it can do in thousands of steps (junk before identification, messages in every stage, program output, input, channels), some next to a generated session of a good client. Whenever somebody has something the server can read or accept, the number of reads, writes and accepts the server does elsewhere before it turns to them is counted; it must stay below 400 for each of the others. Other cases are generated sessions with hostile clients: when nothing happens anymore, the server must not keep waking itself. Non-trivial: somebody was busy for more than 2000 such steps, or a hostile client did something."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["transports and program streams are always ready while they have or take bytes, as sockets and pipes with full buffers are, and take at least a kilobyte at a time"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(6_000, 12)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<BCase> {
		let good = conn(0, Focus::Mixed, 6).prop_map(|mut c| {
			c.net = NetCfg { buffered: c.net.buffered, ..NetCfg::plain() };
			c.client.after = 0;
			// What takes one byte at a time makes a lot of work, which is not what is judged here.
			for o in &mut c.client.ops {
				if let Op::Open { max, .. } = o {
					*max = (*max).max(1 << 10);
				}
			}
			for p in &mut c.progs {
				p.accept = p.accept.filter(|a| *a == 0 || *a >= 1 << 10);
			}
			c
		});
		prop_oneof![
			2 => (busy_sched(), prop::option::of(good), vec(busy(true), 1..4), 2000u32..4000)
				.prop_map(|(sched, good, busy, n)| BCase::Busy { sched, good, busy, n }),
			3 => hostile::hcase().prop_map(BCase::Idle),
		]
		.boxed()
	}
	fn max_shrink(&self) -> u32 {
		300
	}
	fn check(&self, c: &BCase) -> Verdict {
		let (sched, good, busy, n) = match c {
			BCase::Busy { sched, good, busy, n } => (sched, good, busy, *n),
			BCase::Idle(h) => {
				let sim = run_case(&h.s);
				ensure!(sim.panic.is_none(), "the server stopped: {:?}", sim.panic);
				ensure!(!sim.spun, "with nothing to do the server keeps running");
				let mut o = Obs::new(sim.actors[usize::from(h.good)..].iter().any(|h| h.t.all.len() > 30));
				o.inner = sim.polls;
				o.label(true, "idle in the end");
				return Ok(o);
			}
		};
		let mut conns: Vec<SConn> = good.iter().cloned().collect();
		let first = conns.len();
		for b in busy {
			conns.push(busy_conn(b, conns.len(), n));
		}
		let programs = good.as_ref().map_or(0, |c| c.client.ops.iter().filter(|o| matches!(o, Op::Start { .. })).count());
		let parties: u64 = conns.len() as u64
			+ programs as u64
			+ busy.iter().map(|b| if let Kind::Output(a, e, k) = b.kind { u64::from(k) * (u64::from(a) + u64::from(e)).max(1) } else { 1 }).sum::<u64>();
		let s = SCase { sched: sched.clone(), conns };
		let sim = run_case(&s);
		ensure!(sim.panic.is_none(), "the server stopped: {:?}", sim.panic);
		ensure!(!sim.overrun, "the server never comes to rest");
		ensure!(!sim.spun, "with nothing to do the server keeps running");
		let w = sim.w();
		let limit = PATIENCE * parties;
		ensure!(
			w.max_accept_hungry <= limit,
			"a connection waits to be accepted while the server does {} other things", w.max_accept_hungry
		);
		for (i, n) in w.nets.iter().enumerate() {
			ensure!(
				n.max_hungry <= limit,
				"connection {} has something for the server, which does {} other things", i, n.max_hungry
			);
		}
		for p in w.insts.iter().filter(|p| p.conn >= first) {
			ensure!(
				p.max_hungry <= limit,
				"a program of connection {} has output for the server, which does {} other things", p.conn, p.max_hungry
			);
		}
		let mut o = Obs::new(w.io_ops > 2000);
		o.inner = w.io_ops;
		for b in busy {
			o.label(true, kind_label(&b.kind));
		}
		o.label(first > 0, "with a good client");
		o.label(busy.len() > 1, "several busy ones");
		let max = w.nets.iter().map(|n| n.max_hungry).chain(w.insts.iter().filter(|p| p.conn >= first).map(|p| p.max_hungry)).max().unwrap_or(0);
		o.label(max > 20, "waited for more than 20 steps");
		o.label(max > 100, "waited for more than 100 steps");
		o.label(max > 400, "waited for more than 400 steps");
		if std::env::var("VP_DEBUG").is_ok() {
			let nets: Vec<u64> = w.nets.iter().map(|n| n.max_hungry).collect();
			let insts: Vec<_> = w.insts.iter().map(|n| (n.conn, n.max_hungry)).collect();
			if max > 1500 {
				eprintln!("{:?} {:?} {:#?}", nets, insts, c);
			}
			eprintln!("hungry {} accept {} ops {} parties {}", max, w.max_accept_hungry, w.io_ops, parties);
		}
		Ok(o)
	}
}

// ------------------------------------------------------------------ C31

pub struct C31;
impl Prop for C31 {
	type Case = hostile::HCase;
	const ID: &'static str = "C31";
	fn rule(&self) -> &'static str {
		"Generated sessions of good and hostile clients, whose connections end in every way (end of stream, reset, disconnect, errors in every stage) or go on; in the end, the transports, users and the streams and waits for programs of each connection must have been dropped if and only if it ended, it must have ended if its client did, and nothing of a program that ended on a channel closed by both sides may be left. After the server itself is dropped none of the memory it allocated may be left. Non-trivial: a connection ended, or a channel was closed after its program."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["a transport reports that the other side closed or reset it, as sockets do"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(36_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<hostile::HCase> {
		let bye = RMsg::new("disconnect", vec![V::U(11), V::S(hx("bye")), V::S(hx(""))]).encode();
		(hostile::hcase(), vec(0u8..8, 3))
			.prop_map(move |(mut h, ends)| {
				for (c, e) in h.s.conns.iter_mut().zip(ends) {
					let ops = &mut c.client.ops;
					match e {
						0 => ops.push(Op::Cut),
						1 => ops.push(Op::Reset),
						2 => ops.push(Op::Payload(Hex(bye.clone()))),
						3 => ops.extend([Op::Settle, Op::Cut]),
						4 => ops.extend([Op::Settle, Op::Reset]),
						5 => ops.extend([Op::Settle, Op::Payload(Hex(bye.clone()))]),
						_ => {}
					}
				}
				h
			})
			.boxed()
	}
	fn max_shrink(&self) -> u32 {
		1500
	}
	fn check(&self, c: &hostile::HCase) -> Verdict {
		let mut sim = run_case(&c.s);
		ensure!(sim.panic.is_none(), "the server stopped: {:?}", sim.panic);
		ensure!(!sim.overrun, "the server never comes to rest");
		let mut o = Obs::default();
		{
			let w = sim.w();
			for (i, n) in w.nets.iter().enumerate() {
				if !sim.is_connected(i) {
					continue;
				}
				let cl = &sim.actors[i];
				let ended = n.gone[0];
				let at = |s: &str| format!("connection {} {}: {}", i, if ended { "ended" } else { "goes on" }, s);
				ensure!(n.gone[1] == ended, "{}", at("only one half of the transport is closed"));
				ensure!(n.users[0] <= 1, "{}", at("several users"));
				ensure!((n.users[1] == n.users[0]) == (ended || n.users[0] == 0), "{}", at(&format!("{} users, {} dropped", n.users[0], n.users[1])));
				for p in w.insts.iter().filter(|p| p.conn == i) {
					let all = p.gone.iter().all(|g| *g);
					ensure!(!ended || all, "{}", at(&format!("program: stdout, stderr, stdin, end dropped: {:?}", p.gone)));
				}
				let (cut, reset) = cl.closing();
				// It can not be noticed while the server waits for the client to read.
				let stuck = c.s.conns[i].net.room > 0 && cl.deaf();
				ensure!(ended || !reset || !n.reset, "{}", at("the client reset it"));
				ensure!(ended || stuck || !cut || !n.eof, "{}", at("the client closed it"));
				let bye = matches!(c.s.conns[i].client.ops.last(), Some(Op::Payload(p)) if p.first() == Some(&1));
				if bye && i < usize::from(c.good) && cl.finished() && !stuck {
					ensure!(ended, "{}", at("the client sent a disconnect message"));
					o.label(true, "disconnect message");
				}
				o.label(ended && n.reset, "reset");
				o.label(ended && n.eof, "closed by the client");
				o.label(ended && !n.eof && !n.reset, "ended by the server");
				o.label(ended && n.users[0] > 0, "session ended");
				o.label(ended && w.insts.iter().any(|p| p.conn == i && p.exited.is_none()), "ended with a program running");
				o.nontrivial |= ended;
				if ended {
					continue;
				}
				// Programs of channels that are done with
				let mut spawns = w.log.iter().filter_map(|(_, e)| match e {
					Ev::Spawn { conn, inst, .. } if *conn == i => Some(*inst),
					_ => None,
				});
				if cl.strays.is_empty() && i < usize::from(c.good) {
					for (_, k, _) in starts_of(cl) {
						let Some(inst) = spawns.next() else { break };
						let Some(p) = inst.map(|n| &w.insts[n]) else { continue };
						let ch = &cl.chans[k];
						let over = p.exited.is_some() && p.ended.iter().all(|e| e.is_some());
						if !(over && ch.sent_close && ch.rcvd_close) {
							continue;
						}
						// The server can not tell that a program which does not read its input never will.
						let blocked = p.cap == Some(0) && !p.broken;
						let left: Vec<bool> = p.gone.iter().enumerate().map(|(i, g)| *g || (i == 2 && blocked)).collect();
						ensure!(
							left.iter().all(|g| *g),
							"{}", at(&format!("channel {} is done with, but stdout, stderr, stdin, end dropped: {:?}", ch.cn, p.gone))
						);
						o.nontrivial = true;
						o.label(true, "channel closed after its program");
					}
				}
			}
		}
		sim.finish();
		ensure!(sim.panic.is_none(), "the server's parts panic when dropped: {:?}", sim.panic);
		let mut held = sim.meter.held();
		if held != 0 {
			// What is set up once for the whole process or thread is not there the second time.
			let mut again = run_case(&c.s);
			again.finish();
			held = again.meter.held();
		}
		ensure!(held == 0, "{} bytes of memory are left of the server", held);
		o.label(sim.meter.peak() > 200_000, "more than 200 kB at some time");
		o.inner = sim.polls;
		Ok(o)
	}
}

// ------------------------------------------------------------------ C32

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum MCase {
	/// One client does 1500 things, or 7500
	Busy(Sched, Busy),
	/// So many connections come and go, or three times as many
	Come { sched: Sched, conns: Vec<SConn> },
}

fn peak_of(s: &SCase) -> Result<(Meter, Sim<Client>), String> {
	let sim = run_case(s);
	ensure!(sim.panic.is_none(), "the server stopped: {:?}", sim.panic);
	ensure!(!sim.overrun, "the server never comes to rest");
	Ok((sim.meter, sim))
}

const FEW: u32 = 1500;
const MANY: u32 = 7500;

pub struct C32;
impl Prop for C32 {
	type Case = MCase;
	const ID: &'static str = "C32";
	fn rule(&self) -> &'static str {
		"A client or its programs do something without end which leaves nothing behind (junk before identification, messages in every stage, empty data, output with and without a client that reads, input, channels opened and closed, with and without programs, and more data than the window allows to programs which read little or nothing of it), 1500 times and 7500 times: what the server allocates at most may differ by at most 16 kB. And one to three generated connections, which all end, once and four times over: what the server keeps in the end may differ by at most 4 kB per connection. Non-trivial: the longer run did more."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["memory is what the server's code takes from the allocator"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(3_000, 12)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<MCase> {
		let b = (busy(false), prop_oneof![3 => Just(0u32), 1 => 300u32..3000])
			.prop_map(|(mut b, room)| {
				// Data that is not acknowledged may pile up, as much as the window allows
				let data = match &b.kind {
					Kind::Input(_) | Kind::Flood(..) => true,
					Kind::Channel(_, m) => m.iter().any(|m| m.kind == "data" && m.s(1) != b""),
					_ => false,
				};
				if !data {
					b.net.room = room;
					b.deaf = room > 0;
				}
				b
			});
		prop_oneof![
			2 => (busy_sched(), b).prop_map(|(s, b)| MCase::Busy(s, b)),
			1 => (sched(), vec(prop_oneof![1 => conn(0, Focus::Mixed, 6), 1 => hostile::hostile(0)], 1..4), any::<bool>())
				.prop_map(|(sched, mut conns, reset)| {
					for c in &mut conns {
						c.client.after = 0;
						c.client.ops.push(Op::Settle);
						c.client.ops.push(if reset { Op::Reset } else { Op::Cut });
					}
					MCase::Come { sched, conns }
				}),
		]
		.boxed()
	}
	fn max_shrink(&self) -> u32 {
		200
	}
	fn check(&self, c: &MCase) -> Verdict {
		let mut o = Obs::default();
		match c {
			MCase::Busy(sched, b) => {
				let run = |n| peak_of(&SCase { sched: sched.clone(), conns: vec![busy_conn(b, 0, n)] });
				let (a, z) = (run(FEW)?, run(MANY)?);
				if std::env::var("VP_DEBUG").is_ok() {
					eprintln!("{} {} {} ops {} {}", kind_label(&b.kind), a.0.peak(), z.0.peak(), a.1.w().io_ops, z.1.w().io_ops);
				}
				ensure!(
					z.0.peak() <= a.0.peak() + 16_384,
					"{}: {} bytes of memory for {} things, {} bytes for {}", kind_label(&b.kind), a.0.peak(), FEW, z.0.peak(), MANY
				);
				// Whoever ignores the window may be thrown out in both.
				o.nontrivial = z.1.w().io_ops > a.1.w().io_ops + 1000 || b.deaf || matches!(b.kind, Kind::Flood(..));
				o.inner = a.1.w().io_ops + z.1.w().io_ops;
				o.label(true, kind_label(&b.kind));
				o.label(b.deaf, "without reading replies");
			}
			MCase::Come { sched, conns } => {
				let run = |times: usize| {
					let mut all = vec![];
					for t in 0..times {
						for (i, c) in conns.iter().enumerate() {
							let mut c = c.clone();
							// The user is the number of the connection.
							let id = t * conns.len() + i;
							for o in &mut c.client.ops {
								if let Op::Auth(m) = o {
									if m.s(0) == b"conn-0" {
										*m = ua_none(format!("conn-{}", id).as_bytes());
									}
								}
							}
							c.client.after = id as u8;
							all.push(c);
						}
					}
					peak_of(&SCase { sched: sched.clone(), conns: all })
				};
				let (a, z) = (run(1)?, run(4)?);
				let over = |s: &Sim<Client>| (0..s.actors.len()).all(|i| s.is_connected(i) && s.w().nets[i].gone[0]);
				if !(over(&a.1) && over(&z.1)) {
					o.label(true, "not all of them ended");
					return Ok(o);
				}
				let more = 3 * conns.len() as i64;
				if std::env::var("VP_DEBUG").is_ok() {
					eprintln!("come {} {} for {} more", a.0.held(), z.0.held(), more);
				}
				ensure!(
					z.0.held() <= a.0.held() + 4096 * more,
					"{} connections ended: {} bytes left; {} connections ended: {} bytes left", conns.len(), a.0.held(), conns.len() * 4, z.0.held()
				);
				o.nontrivial = true;
				o.inner = a.1.polls + z.1.polls;
				o.label(true, "connections came and went");
			}
		}
		Ok(o)
	}
}
