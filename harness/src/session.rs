//! C17-C22 (and the well-behaved part of C13): sessions over the simulated server, judged by a
//! model of what each client and each program has to observe.
use crate::{gen, rmsg::*, runner::*, sclient::*, sim::*, tclient::*, util::*};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SConn {
	pub net: NetCfg,
	pub client: ClientCfg,
	pub progs: Vec<ProgSpec>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SCase {
	pub sched: Sched,
	pub conns: Vec<SConn>,
}

pub fn run_case(c: &SCase) -> Sim<Client> {
	run_case_with(c, Decide::Everyone)
}

pub fn run_case_with(c: &SCase, decide: Decide) -> Sim<Client> {
	let ex = expect(1, SERVER_IDENT.as_bytes());
	let actors = c
		.conns
		.iter()
		.enumerate()
		.map(|(i, s)| Client::new(i, s.client.clone(), s.progs.clone(), ex.clone()))
		.collect();
	let mut sim = Sim::new(
		c.sched.clone(),
		SERVER_IDENT.as_bytes(),
		1,
		decide,
		actors,
		c.conns.iter().map(|s| s.net.clone()).collect(),
		c.conns.iter().map(|s| s.progs.clone()).collect(),
	);
	sim.run();
	sim
}

/// Which properties a finding speaks against. `*`: all of them.
pub struct Finding(pub &'static [&'static str], pub String);

#[derive(Default)]
pub struct Report {
	pub findings: Vec<Finding>,
	pub out_bytes: u64,
	pub err_bytes: u64,
	pub in_bytes: u64,
	pub programs: u64,
	pub channels: u64,
	pub replies: u64,
	pub finished_programs: u64,
	pub client_closed_first: u64,
	pub reused: bool,
	pub window_limited: u64,
	pub adjusts: u64,
	pub stdin_closed: u64,
	pub stdin_broken: u64,
}

impl Report {
	fn add(&mut self, tags: &'static [&'static str], s: String) {
		self.findings.push(Finding(tags, s));
	}
	pub fn about(&self, id: &str) -> Option<&str> {
		self.findings
			.iter()
			.find(|f| f.0.contains(&id))
			.or_else(|| self.findings.iter().find(|f| f.0.contains(&"*")))
			.map(|f| &*f.1)
	}
}

/// Judge the connections `who` (all of them must be those of conforming clients).
pub fn judge(sim: &Sim<Client>, who: &[usize]) -> Report {
	let mut r = Report::default();
	if let Some(p) = &sim.panic {
		r.add(&["*"], format!("the server stopped: {}", p));
	}
	let w = sim.w();
	if let Some(m) = &w.misuse {
		r.add(&["C17"], m.clone());
	}
	for &ci in who {
		judge_conn(sim, &w, ci, &mut r);
	}
	r
}

/// Programs are started in the order of the requests: (when, channel, program).
pub fn starts_of(cl: &Client) -> Vec<(u64, usize, Option<u8>)> {
	let mut starts: Vec<(u64, usize, Option<u8>)> = vec![];
	for (k, c) in cl.chans.iter().enumerate() {
		let mut started = false;
		for (t, s) in &c.sent {
			if let (Sent::Start { prog, .. }, false) = (s, started) {
				let spec = cl.progs.get(usize::from(prog.unwrap_or(0)));
				starts.push((*t, k, *prog));
				started = spec.map_or(false, |s| !s.refuse);
			}
		}
	}
	starts.sort();
	starts
}

/// What was sent on a channel: as data before and after the start of the
/// program, and as extended data.
pub fn sent_input(cl: &Client, c: &Chan) -> (u64, u64, u64) {
	let (mut before, mut after, mut ext) = (0, 0, 0);
	let mut started = false;
	for (_, s) in &c.sent {
		match s {
			Sent::Start { prog, .. } => {
				started |= cl.progs.get(usize::from(prog.unwrap_or(0))).map_or(false, |s| !s.refuse);
			}
			Sent::Data(n) if started => after += n,
			Sent::Data(n) => before += n,
			Sent::Ext(n) => ext += n,
			_ => {}
		}
	}
	(before, after, ext)
}

fn judge_conn(sim: &Sim<Client>, w: &World, ci: usize, r: &mut Report) {
	let cl = &sim.actors[ci];
	let net = &w.nets[ci];
	let left = cl.closing().0 || cl.closing().1;
	let at = |s: String| format!("connection {}: {}", ci, s);

	if let Some(e) = &cl.t.err {
		r.add(&["*"], at(format!("the server's output is wrong: {}", e)));
	}
	if net.wr_dropped.is_some() && !left {
		r.add(&["*"], at(format!("the server ended the connection of a conforming client (operation {} of {})", cl.pc, cl.cfg.ops.len())));
	}
	if !left && !cl.finished() && cl.cfg.ops.iter().any(|o| matches!(o, Op::Cycles { .. })) {
		r.add(&["*"], at(format!("the session cannot go on: operation {} of {}", cl.pc, cl.cfg.ops.len())));
	}
	if cl.t.leftover() > 0 && !left {
		r.add(&["C22"], at(format!("{} bytes of an incomplete packet at the end", cl.t.leftover())));
	}
	for s in &cl.strays {
		let tags: &'static [&'static str] = if s.starts_with("undecodable") {
			&["C22", "C18", "C20"]
		} else if s.starts_with("data") || s.starts_with("extended_data") {
			&["C18", "C19"]
		} else if s.starts_with("success") || s.starts_with("failure") || s.starts_with("open_") {
			&["C20"]
		} else {
			&["C19", "C20"]
		};
		r.add(tags, at(s.clone()));
	}
	if !cl.t.established() || !cl.authed {
		r.add(&["*"], at("not logged in".into()));
		return;
	}
	if !cl.finished() && !left {
		r.add(&["C22"], at(format!("stuck at operation {}: {:?}", cl.pc, cl.cfg.ops.get(cl.pc))));
	}

	let starts = starts_of(cl);
	let mut inst_of: Vec<Option<usize>> = vec![None; cl.chans.len()];
	let spawns: Vec<(bool, &Vec<u8>, Option<usize>)> = w
		.log
		.iter()
		.filter_map(|(_, e)| match e {
			Ev::Spawn { conn, shell, command, inst } if *conn == ci => Some((*shell, command, *inst)),
			_ => None,
		})
		.collect();
	for (n, (_, k, prog)) in starts.iter().enumerate() {
		let want = match prog {
			None => (true, vec![]),
			Some(p) => (false, command_of(&cl.progs, usize::from(*p))),
		};
		match spawns.get(n) {
			Some((shell, command, inst)) => {
				if (*shell, (*command).clone()) != want {
					r.add(&["C20"], at(format!(
						"program start {}: asked for {:?}, started {:?}",
						n, (want.0, Hex(want.1)), (shell, Hex(command.to_vec()))
					)));
					return;
				}
				if inst.is_some() {
					inst_of[*k] = *inst;
				}
			}
			None if left => {}
			None => {
				r.add(&["C20", "C22"], at(format!("program start {} never happened", n)));
			}
		}
	}
	if spawns.len() > starts.len() {
		r.add(&["C20"], at(format!("{} programs started for {} requests", spawns.len(), starts.len())));
	}

	for (k, c) in cl.chans.iter().enumerate() {
		r.channels += 1;
		let at = |s: String| format!("connection {} channel {} (number {}): {}", ci, k, c.cn, s);
		for (p, s) in &c.wrong {
			let tags: &'static [&'static str] = match *p {
				"C19" => &["C19"],
				"C20" => &["C20"],
				_ => &["C21"],
			};
			r.add(tags, at(s.clone()));
		}
		match c.state {
			ChState::Opening => {
				if !left {
					r.add(&["C20", "C22"], at("no reply to the request to open it".into()));
				}
				continue;
			}
			ChState::Refused(_) => {
				if c.ty == b"session" {
					r.add(&["C20"], at("session refused".into()));
				}
				continue;
			}
			ChState::Open => {
				if c.ty != b"session" {
					r.add(&["C20"], at(format!("opened although of type {:?}", Hex(c.ty.clone()))));
				}
			}
		}
		let inst = inst_of[k].map(|i| &w.insts[i]);
		let spec = inst.map(|i| &w.progs[ci][i.prog]);
		let c_close = c.sent.iter().find(|s| s.1 == Sent::Close).map(|s| s.0);
		let s_close = c.rcvd.iter().find(|s| s.1 == Rcv::Close).map(|s| s.0);
		// A close that crosses the server's is also one of the client first.
		let client_first = match (c_close, s_close) {
			(Some(a), Some(b)) => a < b,
			(Some(_), None) => true,
			_ => false,
		};
		r.client_closed_first += u64::from(client_first);

		// ---- replies (C20)
		let mut want = vec![];
		let mut started = false;
		for (_, s) in &c.sent {
			match s {
				Sent::Start { prog, want: wr } => {
					let ok = !started && cl.progs.get(usize::from(prog.unwrap_or(0))).map_or(false, |s| !s.refuse);
					started |= ok;
					if *wr {
						want.push(if ok { Rcv::Success } else { Rcv::Failure });
					}
				}
				Sent::Req { want: true } => want.push(Rcv::Failure),
				_ => {}
			}
		}
		let got: Vec<Rcv> = c
			.rcvd
			.iter()
			.filter(|x| matches!(x.1, Rcv::Success | Rcv::Failure))
			.map(|x| x.1.clone())
			.collect();
		r.replies += got.len() as u64;
		if !want.starts_with(&got) {
			r.add(&["C20"], at(format!("replies {:?}, expected {:?}", got, want)));
		} else if got.len() < want.len() && s_close.is_none() && c_close.is_none() && !left {
			r.add(&["C20", "C22"], at(format!("only {} of {} replies", got.len(), want.len())));
		}
		for x in &c.rcvd {
			if let Rcv::Request(ty, wr) = &x.1 {
				r.add(&["C19", "C20"], at(format!("unexpected request {:?} {}", Hex(ty.clone()), wr)));
			}
			if let Rcv::Ext(ty, _) = &x.1 {
				if *ty != 1 {
					r.add(&["C18"], at(format!("extended data of type {}", ty)));
				}
			}
		}

		// ---- output (C18, C21)
		let outs = [c.out(0), c.out(1)];
		r.out_bytes += outs[0].len() as u64;
		r.err_bytes += outs[1].len() as u64;
		let avail = inst.map_or([0; 2], |i| i.avail);
		for s in 0..2 {
			let full = inst.map_or(vec![], |i| content(i.owner(s), 0, i.avail[s] as usize));
			if !full.starts_with(&outs[s]) {
				r.add(&["C18"], at(format!("{}: {}", ["stdout", "stderr"][s], diff(&outs[s], &full))));
			}
		}
		let total = avail[0] + avail[1];
		let got_total = c.total_received();
		let granted = if c.max == 0 { 0 } else { c.granted() };
		if total > granted {
			r.window_limited += 1;
		}
		let complete = got_total == total;
		if !client_first && !left {
			if total <= granted && !complete {
				r.add(&["C18", "C22"], at(format!("{} of {} bytes of output arrived", got_total, total)));
			} else if got_total < total.min(granted) {
				r.add(&["C21", "C22"], at(format!(
					"{} of {} bytes of output arrived, window granted {}",
					got_total, total, granted
				)));
			}
		}

		// ---- the end (C19)
		let n_eof = c.count(|x| *x == Rcv::Eof);
		let n_close = c.count(|x| *x == Rcv::Close);
		let n_exit = c.count(|x| matches!(x, Rcv::Exit(_)));
		let ended = inst.map_or(false, |i| i.ended.iter().all(|e| e.is_some()));
		let exited = inst.and_then(|i| i.exited);
		if n_eof > 1 || n_close > 1 || n_exit > 1 {
			r.add(&["C19"], at(format!("{} times end-of-file, {} exit statuses, {} closes", n_eof, n_exit, n_close)));
		}
		for x in &c.rcvd {
			if let Rcv::Exit(s) = x.1 {
				if Some(s) != exited {
					r.add(&["C19"], at(format!("exit status {}, program {:?}", s, exited)));
				}
			}
		}
		if let Some(e) = c.pos(|x| *x == Rcv::Eof) {
			if !ended {
				r.add(&["C19"], at("end-of-file although the program's streams are open".into()));
			} else if c.rcvd[e..].iter().any(|x| matches!(x.1, Rcv::Data(_) | Rcv::Ext(..))) {
				r.add(&["C19", "C18"], at("output after end-of-file".into()));
			} else if !complete && !left {
				r.add(&["C19", "C18"], at("end-of-file before all output".into()));
			}
		}
		let finished = ended && complete && exited.is_some();
		r.finished_programs += u64::from(finished);
		if let Some(x) = c.pos(|x| *x == Rcv::Close) {
			if !client_first && (n_eof == 0 || n_exit == 0) {
				r.add(&["C19"], at(format!("closed by the server with {} end-of-file, {} exit status", n_eof, n_exit)));
			}
			if x + 1 != c.rcvd.len() {
				r.add(&["C19"], at("something follows the close".into()));
			}
		}
		if !left {
			if client_first {
				if n_close != 1 {
					r.add(&["C19", "C22"], at("the client's close is not answered".into()));
				}
			} else {
				if ended && complete && n_eof != 1 {
					r.add(&["C19", "C22"], at("no end-of-file".into()));
				}
				if exited.is_some() && n_exit != 1 {
					r.add(&["C19", "C22"], at("no exit status".into()));
				}
				if (n_close == 1) != finished {
					r.add(
						&["C19", "C22"],
						at(format!("{} closes; program finished: {}", n_close, finished)),
					);
				}
			}
		}

		// ---- input (C17) and its flow control (C21)
		let (before, after, ext) = sent_input(cl, c);
		let end_sent = c
			.sent
			.iter()
			.find(|s| matches!(s.1, Sent::Eof | Sent::Close))
			.map(|s| s.0);
		let mut consumed = before + ext;
		if let (Some(i), Some(spec)) = (inst, spec) {
			r.programs += 1;
			r.in_bytes += i.input.len() as u64;
			r.stdin_closed += u64::from(i.stdin_closed.is_some());
			r.stdin_broken += u64::from(i.refused);
			let full = content(cl.owner(k), before as usize, after as usize);
			if !full.starts_with(&i.input) {
				r.add(&["C17"], at(format!("input: {}", diff(&i.input, &full))));
			}
			let blocked = i.cap == Some(0);
			if spec.stdin && !i.broken && !left && s_close.is_none() {
				if !blocked && (i.input.len() as u64) < after {
					r.add(&["C17", "C22"], at(format!("{} of {} bytes of input arrived", i.input.len(), after)));
				}
				if end_sent.is_some() && i.input.len() as u64 == after && i.stdin_closed.is_none() {
					r.add(&["C17", "C22"], at("input is not closed".into()));
				}
			}
			if let Some(t) = i.stdin_closed {
				if !left && !i.broken && s_close.is_none() && end_sent.map_or(true, |e| e > t) {
					r.add(&["C17"], at("input closed although the client did not end it".into()));
				}
			}
			consumed += if !spec.stdin || i.broken || i.stdin_closed.is_some() || s_close.is_some() {
				after
			} else {
				i.input.len() as u64
			};
		} else {
			consumed += after;
		}
		let adjusted: u64 = c
			.rcvd
			.iter()
			.map(|x| if let Rcv::Adjust(n) = x.1 { u64::from(n) } else { 0 })
			.sum();
		r.adjusts += u64::from(adjusted > 0);
		if adjusted > consumed {
			r.add(&["C21"], at(format!("{} bytes of window returned, {} consumed", adjusted, consumed)));
		}
		if !left && s_close.is_none() && c_close.is_none() {
			if c.confirmed_at.is_some() && (c.send_max == 0 || c.initial_send_window + adjusted == 0) {
				r.add(&["C21", "C22"], at(format!(
					"the client may not send anything: window {}, maximum {}", c.initial_send_window + adjusted, c.send_max
				)));
			}
			let deficit = consumed.saturating_sub(adjusted);
			if deficit > c.initial_send_window / 2 {
				r.add(&["C21", "C22"], at(format!(
					"{} bytes consumed but only {} bytes of window returned", consumed, adjusted
				)));
			}
		}
	}
	let mut seen: Vec<u32> = vec![];
	for c in &cl.chans {
		r.reused |= seen.contains(&c.cn);
		seen.push(c.cn);
	}
}

// ------------------------------------------------------------------ generators

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
	Input,
	Output,
	End,
	Channels,
	Flow,
	Frag,
	/// Everything a little, small
	Mixed,
}

fn size(big: u32) -> BoxedStrategy<u32> {
	prop_oneof![
		6 => 0u32..40,
		4 => prop::sample::select(vec![0u32, 1, 255, 256, 257, 511, 512, 513, 1024]),
		4 => 0u32..2000,
		1 => 0u32..big.max(1),
	]
	.boxed()
}

fn status() -> BoxedStrategy<u32> {
	prop_oneof![
		3 => 0u32..3,
		2 => prop::sample::select(vec![127u32, 128, 255, 256, 0x7fff_ffff, 0x8000_0000, u32::MAX]),
		1 => any::<u32>(),
	]
	.boxed()
}

pub fn prog(f: Focus) -> BoxedStrategy<ProgSpec> {
	let big = match f {
		Focus::Output | Focus::Flow => 60_000,
		_ => 5_000,
	};
	let ev = prop_oneof![
		6 => (any::<bool>(), size(big)).prop_map(|(s, n)| PEv::Out(s, n)),
		1 => (0u32..3000).prop_map(PEv::Accept),
		1 => Just(PEv::AcceptAll),
		1 => (0u32..1500).prop_map(PEv::WaitIn),
		1 => any::<bool>().prop_map(|s| PEv::End(s, false)),
	];
	let brk = match f {
		Focus::Input | Focus::Mixed | Focus::Flow => 1,
		_ => 0,
	};
	(
		vec(ev, 0..8),
		// The end: order, wait for the end of the input, errors, missing parts
		(any::<[u8; 3]>(), prop::bool::weighted(0.3), prop::bool::weighted(0.15), 0u8..20, status()),
		prop::bool::weighted(0.12),
		(prop::bool::weighted(0.85), prop::bool::weighted(0.92), prop::bool::weighted(0.8)),
		prop_oneof![6 => Just(None), 2 => (0u32..1200).prop_map(Some), 1 => Just(Some(0))],
		prop_oneof![3 => gen::ascii(), 2 => gen::bytes(), 1 => Just(Hex(vec![]))],
		weighted(vec![(9, Just(None).boxed()), (brk, any::<u8>().prop_map(Some).boxed())]),
	)
		.prop_map(|(mut script, end, refuse, io, accept, command, brk)| {
			let (order, wait, err, missing, status) = end;
			if let Some(at) = brk {
				let at = usize::from(at) % (script.len() + 1);
				script.insert(at, PEv::BreakIn);
			}
			if wait {
				script.push(PEv::AcceptAll);
				script.push(PEv::WaitInClosed);
			}
			let mut tail = vec![
				(order[0], PEv::End(false, err)),
				(order[1], PEv::End(true, err && order[2] & 1 == 1)),
				(order[2], PEv::Exit(status)),
			];
			tail.sort_by_key(|x| x.0);
			for (i, (_, e)) in tail.into_iter().enumerate() {
				// Usually all of them happen.
				if missing as usize != i {
					script.push(e);
				}
			}
			ProgSpec { refuse, stdin: io.0, stdout: io.1, stderr: io.2, accept, script, command }
		})
		.boxed()
}

pub fn portion() -> BoxedStrategy<Portion> {
	prop_oneof![4 => Just(0u16), 2 => Just(1), 2 => 2u16..20, 2 => 20u16..2000].boxed()
}

pub fn net() -> BoxedStrategy<NetCfg> {
	prop_oneof![
		1 => Just(NetCfg::plain()),
		4 => (portion(), portion(), portion(), prop_oneof![2 => Just(0u32), 1 => 1u32..200, 1 => 200u32..5000], portion(), prop_oneof![2 => Just(0u8), 1 => 1u8..4])
			.prop_map(|(deliver, read, write, room, drain, buffered)| NetCfg { deliver, read, write, room, drain, buffered }),
	]
	.boxed()
}

pub fn sched() -> BoxedStrategy<Sched> {
	(0u8..3, vec(any::<u8>(), 0..64), any::<bool>(), 0u8..4, any::<u64>(), any::<u64>())
		.prop_map(|(mode, tape, noise, handler_yields, rng, select)| Sched {
			mode,
			tape: Hex(tape),
			noise,
			handler_yields,
			rng,
			select,
		})
		.boxed()
}

fn windows(f: Focus) -> BoxedStrategy<(u32, u32, bool)> {
	let max = prop_oneof![
		4 => prop::sample::select(vec![32768u32, u32::MAX, 256, 255, 257, 1 << 15]),
		2 => 1u32..600,
		1 => 1u32..4,
	];
	let (w_auto, w_man) = match f {
		Focus::Flow => (2, 4),
		_ => (9, 1),
	};
	prop_oneof![
		w_auto => (prop_oneof![3 => Just(1u32 << 21), 3 => 1u32..3000, 1 => 3000u32..200_000, 1 => Just(u32::MAX)], max.clone())
			.prop_map(|(w, m)| (w, m, true)),
		w_man => (prop_oneof![2 => 0u32..700, 1 => Just(0u32), 1 => 0u32..20_000, 1 => Just(u32::MAX)], prop_oneof![9 => max.boxed(), 1 => Just(0u32).boxed()])
			.prop_map(|(w, m)| (w, m, false)),
	]
	.boxed()
}

fn misc() -> BoxedStrategy<RMsg> {
	let st = gen::bytes();
	let kinds: Vec<BoxedStrategy<RMsg>> = ["ignore", "debug", "unimplemented", "ua_none", "ua_password", "ua_pk_blob"]
		.iter()
		.map(|k| gen::of_kind(kind(k), &st))
		.collect();
	proptest::strategy::Union::new(kinds).boxed()
}

/// Requests which are not supported.
fn other_request() -> BoxedStrategy<(Hex, Hex)> {
	let st = gen::bytes();
	let kinds: Vec<BoxedStrategy<(Hex, Hex)>> = SESSION
		.iter()
		.filter(|k| k.name != "shell" && k.name != "exec")
		.map(|k| gen::of_kind(k, &st).prop_map(|m| (hx(&m.kind), Hex(m.encode_session()))).boxed())
		.collect();
	prop_oneof![
		4 => proptest::strategy::Union::new(kinds),
		1 => (gen::bytes(), gen::bytes())
			.prop_filter("start", |(t, _)| t.0 != b"shell" && t.0 != b"exec"),
		1 => Just((hx("exec"), Hex(vec![0, 0]))),
		1 => Just((hx("exec"), Hex(vec![0, 0, 0, 2, b'a']))),
		1 => Just((hx("shell"), Hex(vec![1]))),
	]
	.boxed()
}

fn weighted<T: std::fmt::Debug + Clone + 'static>(v: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
	proptest::strategy::Union::new_weighted(v.into_iter().filter(|x| x.0 > 0).collect()).boxed()
}

pub fn op(f: Focus) -> BoxedStrategy<Op> {
	use Focus::*;
	let ch = || prop_oneof![3 => Just(255u8), 2 => any::<u8>()].prop_map(|c| c);
	let big = match f {
		Input => 40_000,
		Flow => 120_000,
		_ => 4_000,
	};
	let w = |a: u32, b: u32, c: u32, d: u32, e: u32, g: u32, h: u32| match f {
		Input => a,
		Output => b,
		End => c,
		Channels => d,
		Flow => e,
		Frag => g,
		Mixed => h,
	};
	weighted(vec![
		(w(2, 2, 3, 6, 2, 2, 3), (weighted(vec![(9, Just(hx("session")).boxed()), (w(0, 0, 0, 3, 0, 1, 1), gen::bytes())]), prop_oneof![3 => 0u32..4, 1 => any::<u32>()], windows(f))
			.prop_map(|(ty, cn, (window, max, auto))| Op::Open { ty, cn, window, max, auto }).boxed()),
		(w(3, 4, 4, 6, 3, 3, 3), (ch(), prop_oneof![5 => 0u8..4, 1 => Just(255u8)], prop::bool::weighted(0.8))
			.prop_map(|(ch, prog, want)| Op::Start { ch, prog, want }).boxed()),
		(w(0, 0, 0, 4, 0, 1, 1), (ch(), other_request(), any::<bool>())
			.prop_map(|(ch, (ty, data), want)| Op::Req { ch, ty, data, want }).boxed()),
		(w(9, 1, 1, 2, 6, 3, 3), (ch(), size(big), prop_oneof![4 => Just(u32::MAX), 1 => 1u32..600, 1 => 1u32..8])
			.prop_map(|(ch, len, chunk)| Op::Data { ch, len, chunk: chunk.max(len / 40) }).boxed()),
		(w(1, 0, 0, 1, 2, 1, 1), (ch(), prop_oneof![Just(1u32), any::<u32>()], size(1000)).prop_map(|(ch, ty, len)| Op::Ext { ch, ty, len }).boxed()),
		(w(2, 1, 1, 1, 1, 1, 1), ch().prop_map(Op::Eof).boxed()),
		(w(1, 1, 4, 4, 1, 0, 2), ch().prop_map(Op::Close).boxed()),
		(w(0, 1, 0, 1, 8, 1, 1), (ch(), prop_oneof![3 => 0u32..600, 2 => 600u32..30_000, 1 => any::<u32>(), 1 => Just(u32::MAX)]).prop_map(|(c, n)| Op::Adjust(c, n)).boxed()),
		(w(1, 1, 1, 2, 1, 2, 1), misc().prop_map(Op::Misc).boxed()),
		(w(2, 2, 2, 3, 2, 2, 2), Just(Op::Sync).boxed()),
		(w(1, 1, 2, 1, 2, 1, 1), Just(Op::Settle).boxed()),
	])
}

pub fn client(id: usize, f: Focus, max_ops: usize) -> BoxedStrategy<ClientCfg> {
	let first = (windows(f), prop_oneof![3 => 0u32..4, 1 => any::<u32>()], prop_oneof![5 => 0u8..4, 1 => Just(255u8)], prop::bool::weighted(0.9), prop::bool::weighted(0.9));
	(
		vec(op(f), 0..max_ops.max(1)),
		first,
		any::<bool>(),
		prop::bool::weighted(0.8),
		(0u8..4, prop_oneof![3 => Just(0u8), 1 => any::<u8>()]),
		(0u8..2, any::<u16>()),
	)
		.prop_map(move |(ops, ((window, max, auto), cn, prog, want, go), wait, auto_close, (early, pad), (after, fill))| {
			let mut v = login(id, wait);
			v.push(Op::Open { ty: hx("session"), cn, window, max, auto });
			if go {
				v.push(Op::Start { ch: 0, prog, want });
			}
			v.extend(ops);
			// Without pipelining the rest needs a success first.
			let mut hs = HsCfg::plain(id as u64 + 10);
			hs.early = early;
			hs.pad = pad;
			ClientCfg { hs, ops: v, after: if id == 0 { 0 } else { after }, auto_close, fill }
		})
		.boxed()
}

pub fn conn(id: usize, f: Focus, max_ops: usize) -> BoxedStrategy<SConn> {
	(net(), client(id, f, max_ops), vec(prog(f), 1..4))
		.prop_map(|(net, client, progs)| SConn { net, client, progs })
		.boxed()
}

pub fn case(f: Focus, max_conns: usize, max_ops: usize) -> BoxedStrategy<SCase> {
	let one = (sched(), conn(0, f, max_ops)).prop_map(|(sched, c)| SCase { sched, conns: vec![c] });
	if max_conns < 2 {
		return one.boxed();
	}
	let two = (sched(), conn(0, f, max_ops), conn(1, f, max_ops / 2))
		.prop_map(|(sched, a, b)| SCase { sched, conns: vec![a, b] });
	if max_conns < 3 {
		return prop_oneof![3 => one, 1 => two].boxed();
	}
	let three = (sched(), conn(0, f, max_ops), conn(1, f, max_ops / 2), conn(2, f, max_ops / 2))
		.prop_map(|(sched, a, b, c)| SCase { sched, conns: vec![a, b, c] });
	prop_oneof![6 => one, 2 => two, 1 => three].boxed()
}

pub fn labels(o: &mut Obs, c: &SCase, sim: &Sim<Client>, r: &Report) {
	o.label(c.conns.len() > 1, "several connections");
	o.label(r.channels > 1, "several channels");
	o.label(r.programs > 1, "several programs");
	o.label(r.out_bytes > 0 && r.err_bytes > 0, "both output streams");
	o.label(r.out_bytes + r.err_bytes > 10_000, "more than 10 kB output");
	o.label(r.in_bytes > 0, "input");
	o.label(r.in_bytes > 10_000, "more than 10 kB input");
	o.label(r.finished_programs > 0, "finished program");
	o.label(r.client_closed_first > 0, "closed by the client first");
	o.label(r.reused, "channel number reused");
	o.label(r.window_limited > 0, "output limited by the window");
	o.label(r.adjusts > 0, "window returned");
	o.label(r.stdin_closed > 0, "input closed");
	o.label(r.stdin_broken > 0, "input refused by the program");
	o.label(r.replies > 2, "several replies");
	o.label(c.sched.mode == 1, "random schedule");
	o.label(c.sched.mode == 2, "priority schedule");
	o.label(c.conns.iter().any(|c| c.net.room > 0), "transport blocks");
	o.inner += sim.polls;
}

macro_rules! session_prop {
	($name:ident, $id:literal, $focus:expr, $conns:expr, $ops:expr, $cases:expr, $rule:literal, |$r:ident, $o:ident| $nt:expr, $fixed:expr) => {
		pub struct $name;
		impl Prop for $name {
			type Case = SCase;
			const ID: &'static str = $id;
			fn rule(&self) -> &'static str {
				concat!("One or more scripted reference clients against the real server future over in-memory transports, with generated programs, fragmentation, back-pressure, schedules, spurious wake-ups and handler delays. Inner evaluations are polls of the server. ", $rule)
			}
			fn assumptions(&self) -> Vec<&'static str> {
				vec![
					"the transports and program streams behave like sockets and pipes: they register the waker when they are pending and lose nothing themselves",
					"the reference client (own codec, cipher and channel model) follows RFC 4251-4254",
				]
			}
			fn cases(&self, t: Tier) -> u32 {
				t.cases($cases, 15)
			}
			fn strategy(&self, _: Tier) -> BoxedStrategy<SCase> {
				case($focus, $conns, $ops)
			}
			fn fixed(&self, _: Tier) -> Vec<SCase> {
				$fixed
			}
			fn max_shrink(&self) -> u32 {
				2000
			}
			fn check(&self, c: &SCase) -> Verdict {
				let sim = run_case(c);
				ensure!(!sim.overrun, "the server never comes to rest");
				let who: Vec<usize> = (0..c.conns.len()).collect();
				let $r = judge(&sim, &who);
				if let Some(m) = $r.about($id) {
					return Err(m.to_string());
				}
				let mut $o = Obs::new($nt);
				labels(&mut $o, c, &sim, &$r);
				Ok($o)
			}
		}
	};
}

/// Long and large sessions: more packets, bytes, channels and programs than any counter or limit
/// somebody might think of allows.
fn large(id: &str) -> Vec<SCase> {
	// Not in mutation campaigns
	if std::env::var_os("VP_SCALE").is_some() {
		return vec![];
	}
	let prog = |script: Vec<PEv>| ProgSpec { refuse: false, stdin: true, stdout: true, stderr: true, accept: None, script, command: hx("large") };
	let ends = |mut v: Vec<PEv>, status| {
		v.extend([PEv::End(false, false), PEv::End(true, false), PEv::Exit(status)]);
		v
	};
	let open = |cn: u32| Op::Open { ty: hx("session"), cn, window: 1 << 20, max: 1 << 15, auto: true };
	let start = |ch: u8, prog: u8| Op::Start { ch, prog, want: true };
	let case = |ops: Vec<Op>, progs: Vec<ProgSpec>, mode: u8, net: NetCfg| SCase {
		sched: Sched { mode, ..Sched::plain() },
		conns: vec![SConn { net, client: ClientCfg { hs: HsCfg::plain(9), ops: [login(0, true), ops].concat(), after: 0, auto_close: true, fill: 0 }, progs }],
	};
	let plain = NetCfg::plain;
	match id {
		"C17" => {
			let input = |len, chunk| vec![open(2), start(0, 0), Op::Data { ch: 0, len, chunk }, Op::Eof(0), Op::Sync];
			let reads = || vec![prog(ends(vec![PEv::WaitInClosed], 3))];
			vec![
				case(input(70_000, 1), reads(), 0, plain()),
				case(input(5_000_000, 32_768), reads(), 0, plain()),
				case(input(3_000_000, 1000), reads(), 1, plain()),
				case([vec![open(2), open(3)], vec![start(0, 0), start(1, 0)], (0..400).map(|i| Op::Data { ch: i as u8 % 2, len: 5000 + i, chunk: 2000 }).collect(), vec![Op::Eof(1), Op::Eof(0)]].concat(), reads(), 0, plain()),
			]
		}
		"C18" => {
			let out = |v: Vec<PEv>| vec![prog(ends(v, 0))];
			let run = || vec![open(2), start(0, 0), Op::Sync];
			vec![
				case(run(), out(vec![PEv::Out(false, 5_000_000)]), 0, plain()),
				case(run(), out((0..3000).flat_map(|i| vec![PEv::Out(i % 3 == 0, 700), PEv::Out(i % 2 == 0, 1)]).collect()), 1, plain()),
				case(vec![Op::Open { ty: hx("session"), cn: 1, window: 100_000, max: 1, auto: true }, start(0, 0), Op::Sync], out(vec![PEv::Out(true, 70_000)]), 0, plain()),
				case((0..60).flat_map(|i| vec![open(i), start(i as u8, 0)]).collect(), out(vec![PEv::Out(false, 30_000), PEv::Out(true, 20_000)]), 1, plain()),
			]
		}
		"C19" => {
			let progs: Vec<ProgSpec> = (0..250u32).map(|i| prog(ends(vec![PEv::Out(i % 2 == 0, i)], i * 0x0101_0101))).collect();
			vec![
				case((0..250).flat_map(|i| vec![open(i), start(i as u8, i as u8)]).collect(), progs.clone(), 0, plain()),
				case((0..250).flat_map(|i| vec![open(i), start(i as u8, i as u8), Op::WaitEnd(i as u8)]).collect(), progs.clone(), 0, plain()),
				case((0..250).flat_map(|i| vec![open(7), start(i as u8, i as u8), Op::WaitEnd(i as u8), Op::Sync]).collect(), progs, 1, plain()),
			]
		}
		_ => {
			let tail = vec![open(9), start(0, 0), Op::Sync, Op::Req { ch: 0, ty: hx("?"), data: hx(""), want: true }, Op::Sync];
			let progs = || vec![prog(ends(vec![], 1))];
			vec![
				case([vec![Op::Cycles { left: 5000, prog: None, stage: 0 }], tail.clone()].concat(), progs(), 0, plain()),
				case([(0..2500).map(|i| open(i * 7)).collect(), vec![Op::Sync], tail].concat(), progs(), 0, plain()),
				case([(0..200).map(open).collect(), (0..200u32).flat_map(|i| vec![start((i * 77 % 200) as u8, 0), Op::Req { ch: i as u8, ty: hx("env"), data: hx(""), want: i % 3 > 0 }]).collect(), vec![Op::Sync]].concat(), vec![prog(vec![])], 0, plain()),
				case([vec![open(4)], (0..3000).map(|i| Op::Req { ch: 0, ty: hx("signal"), data: hx(""), want: i % 2 == 0 }).collect(), vec![start(0, 0), Op::Sync]].concat(), vec![prog(vec![])], 0, plain()),
			]
		}
	}
}

session_prop!(C17, "C17", Focus::Input, 2, 12, 50_000,
	"Non-trivial: input reached a program.",
	|r, o| r.in_bytes > 0, large("C17"));
session_prop!(C18, "C18", Focus::Output, 3, 10, 36_000,
	"Non-trivial: output on both streams, or of several programs.",
	|r, o| r.out_bytes > 0 && (r.err_bytes > 0 || r.programs > 1), large("C18"));
session_prop!(C19, "C19", Focus::End, 2, 12, 50_000,
	"Non-trivial: a program finished or the client closed a channel first.",
	|r, o| r.finished_programs > 0 || r.client_closed_first > 0, large("C19"));
session_prop!(C20, "C20", Focus::Channels, 2, 20, 50_000,
	"Non-trivial: several channels and replies.",
	|r, o| r.channels > 1 && r.replies > 1, large("C20"));

// ------------------------------------------------------------------ C21

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum FlowCase {
	Session(SCase),
	/// Much more input than the window, one message at a time: (size, extended)
	Long { sizes: Vec<(u32, bool)>, sink: u8, sched: Sched, net: NetCfg },
	/// Much more output than the window of the client: per grant (size, stream), window, max
	Grants { window: u32, max: u32, out: Vec<(bool, u32)>, grants: Vec<u32>, sched: Sched, net: NetCfg },
}

fn long_case(sizes: &[(u32, bool)], sink: u8, sched: &Sched, net: &NetCfg) -> SCase {
	let mut ops = login(0, true);
	ops.push(Op::Open { ty: hx("session"), cn: 7, window: 1 << 20, max: 1 << 15, auto: true });
	let spec = ProgSpec {
		refuse: false,
		stdin: sink != 2,
		stdout: true,
		stderr: true,
		accept: None,
		script: if sink == 3 { vec![PEv::WaitIn(1), PEv::BreakIn] } else { vec![] },
		command: hx("sink"),
	};
	// 0: a program reads, 1: no program, 2: without stdin, 3: stdin breaks, 4: program, after EOF is not sent
	if sink != 1 {
		ops.push(Op::Start { ch: 0, prog: 0, want: true });
	}
	ops.push(Op::Sync);
	for (n, ext) in sizes {
		if *ext {
			ops.push(Op::Ext { ch: 0, ty: 1, len: *n });
		} else {
			ops.push(Op::Data { ch: 0, len: *n, chunk: u32::MAX });
		}
		ops.push(Op::Settle);
	}
	SCase {
		sched: sched.clone(),
		conns: vec![SConn {
			net: net.clone(),
			client: ClientCfg { hs: HsCfg::plain(3), ops, after: 0, auto_close: true, fill: 0 },
			progs: vec![spec],
		}],
	}
}

fn grants_case(c: &FlowCase) -> SCase {
	let (window, max, out, grants, sched, net) = match c {
		FlowCase::Grants { window, max, out, grants, sched, net } => (window, max, out, grants, sched, net),
		_ => unreachable!(),
	};
	let mut ops = login(0, true);
	ops.push(Op::Open { ty: hx("session"), cn: 9, window: *window, max: *max, auto: false });
	ops.push(Op::Start { ch: 0, prog: 0, want: true });
	ops.push(Op::Settle);
	for g in grants {
		ops.push(Op::Adjust(0, *g));
		ops.push(Op::Settle);
	}
	let mut script: Vec<PEv> = out.iter().map(|(s, n)| PEv::Out(*s, *n)).collect();
	script.extend([PEv::End(true, false), PEv::End(false, false), PEv::Exit(5)]);
	SCase {
		sched: sched.clone(),
		conns: vec![SConn {
			net: net.clone(),
			client: ClientCfg { hs: HsCfg::plain(4), ops, after: 0, auto_close: true, fill: 0 },
			progs: vec![ProgSpec {
				refuse: false,
				stdin: true,
				stdout: true,
				stderr: true,
				accept: None,
				script,
				command: hx("source"),
			}],
		}],
	}
}

pub struct C21;
impl Prop for C21 {
	type Case = FlowCase;
	const ID: &'static str = "C21";
	fn rule(&self) -> &'static str {
		"Sessions with small, zero, huge and step-wise granted windows and maximum packet sizes; single channels with several windows' worth of input (read, discarded, extended, refused) one message at a time; outputs released grant by grant, where at every quiet point exactly min(written, granted) must have arrived. Inner evaluations are polls of the server. Non-trivial: output was limited by the window, or window was returned."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(40_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<FlowCase> {
		let small = prop_oneof![3 => 0u32..700, 1 => Just(0u32), 1 => 0u32..9000];
		prop_oneof![
			8 => case(Focus::Flow, 2, 12).prop_map(FlowCase::Session),
			1 => (vec((prop_oneof![3 => Just(32768u32), 2 => 20_000u32..32768, 1 => 0u32..32769, 1 => 32_769u32..140_000], prop::bool::weighted(0.25)).prop_map(|(n, ext)| (if ext { n.min(32_768) } else { n }, ext)), 22..30), 0u8..4, sched(), net())
				.prop_map(|(sizes, sink, sched, net)| FlowCase::Long { sizes, sink, sched, net }),
			6 => (small.clone(), prop_oneof![4 => 1u32..600, 1 => Just(32768u32), 1 => Just(u32::MAX)],
				vec((any::<bool>(), 0u32..1500), 1..5), vec(prop_oneof![6 => small.boxed(), 1 => Just(u32::MAX).boxed()], 0..8), sched(), net())
				.prop_map(|(window, max, out, grants, sched, net)| FlowCase::Grants { window, max, out, grants, sched, net }),
		]
		.boxed()
	}
	fn max_shrink(&self) -> u32 {
		1500
	}
	fn check(&self, c: &FlowCase) -> Verdict {
		let sc = match c {
			FlowCase::Session(s) => s.clone(),
			FlowCase::Long { sizes, sink, sched, net } => long_case(sizes, *sink, sched, net),
			FlowCase::Grants { .. } => grants_case(c),
		};
		let sim = run_case(&sc);
		ensure!(!sim.overrun, "the server never comes to rest");
		let who: Vec<usize> = (0..sc.conns.len()).collect();
		let r = judge(&sim, &who);
		if let Some(m) = r.about("C21") {
			return Err(m.to_string());
		}
		match c {
			FlowCase::Long { .. } => {
				let ch = &sim.actors[0].chans[0];
				ensure!(sim.actors[0].finished(), "the client cannot go on: window {}", ch.send_window);
				// All of it has been consumed at every quiet point, so window comes back in full
				// at least once per window (it need not come back message by message).
				let mut ev: Vec<(u64, i64, bool)> = vec![];
				for (t, s) in &ch.sent {
					if let Sent::Data(n) | Sent::Ext(n) = s {
						ev.push((*t, *n as i64, true));
					}
				}
				for (t, x) in &ch.rcvd {
					if let Rcv::Adjust(n) = x {
						ev.push((*t, -i64::from(*n), false));
					}
				}
				ev.sort();
				let (mut deficit, mut total, mut last_full) = (0i64, 0i64, 0i64);
				for (_, n, sent) in ev {
					if sent {
						if deficit == 0 {
							last_full = total;
						}
						total += n;
					}
					deficit += n;
				}
				if deficit == 0 {
					last_full = total;
				}
				ensure!(
					total - last_full <= ch.initial_send_window as i64 + 32768,
					"of {} bytes, the window of the last {} never came back in full (missing {})",
					total, total - last_full, deficit
				);
			}
			FlowCase::Grants { window, .. } => {
				// At every quiet point as much as possible has arrived.
				let cl = &sim.actors[0];
				let ch = &cl.chans[0];
				let w = sim.w();
				let total: u64 = w.insts.first().map_or(0, |i| i.avail[0] + i.avail[1]);
				let mut granted = u64::from(*window);
				let mut points: Vec<(u64, u64)> = vec![];
				for (t, s) in &ch.sent {
					if let Sent::Adjust(n) = s {
						points.push((*t, granted));
						granted += u64::from(*n);
					}
				}
				for (t, g) in points {
					let got: u64 = ch
						.rcvd
						.iter()
						.filter(|x| x.0 < t)
						.map(|x| match &x.1 {
							Rcv::Data(d) | Rcv::Ext(_, d) => d.len() as u64,
							_ => 0,
						})
						.sum();
					ensure!(got == total.min(g), "{} bytes arrived with a window of {}, {} written", got, g, total);
				}
			}
			_ => {}
		}
		let mut o = Obs::new(r.window_limited > 0 || r.adjusts > 0);
		o.label(matches!(c, FlowCase::Long { .. }), "several windows of input");
		o.label(matches!(c, FlowCase::Grants { .. }), "grant by grant");
		labels(&mut o, &sc, &sim, &r);
		Ok(o)
	}
}

// ------------------------------------------------------------------ C22

type Conversation = (Vec<u8>, Vec<u8>, Option<u32>, usize, usize, ChState);

/// What does not depend on timing.
fn conversations(sim: &Sim<Client>) -> Vec<Vec<Option<Conversation>>> {
	sim.actors
		.iter()
		.map(|cl| {
			cl.chans
				.iter()
				.map(|c| {
					// What arrives before the client closes a channel first depends on timing.
					let c_close = c.sent.iter().find(|s| s.1 == Sent::Close).map(|s| s.0);
					let s_close = c.rcvd.iter().find(|s| s.1 == Rcv::Close).map(|s| s.0);
					let racy = c_close.map_or(false, |a| s_close.map_or(true, |b| a < b));
					let limited = c.max == 0 || !c.auto;
					let exit = c.rcvd.iter().find_map(|x| if let Rcv::Exit(s) = x.1 { Some(s) } else { None });
					(!racy && !limited).then(|| {
						(
							c.out(0),
							c.out(1),
							exit,
							c.count(|x| *x == Rcv::Eof),
							c.count(|x| *x == Rcv::Close),
							c.state.clone(),
						)
					})
				})
				.collect()
		})
		.collect()
}

pub struct C22;
impl Prop for C22 {
	type Case = SCase;
	const ID: &'static str = "C22";
	fn rule(&self) -> &'static str {
		"Sessions on one to three connections; every case runs twice: delivered packet by packet with an eager scheduler, and with generated portions, back-pressure, spurious wake-ups and schedule. Both must leave every client and program served and give the same conversation per channel. Inner evaluations are polls of the server. Non-trivial: a stream was cut into portions or the transport blocked, and a program ran."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["transports register the waker when they are pending and lose nothing themselves"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(30_000, 15)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<SCase> {
		case(Focus::Frag, 3, 12)
	}
	fn max_shrink(&self) -> u32 {
		1500
	}
	fn check(&self, c: &SCase) -> Verdict {
		let sim = run_case(c);
		ensure!(!sim.overrun, "the server never comes to rest");
		let who: Vec<usize> = (0..c.conns.len()).collect();
		let r = judge(&sim, &who);
		if let Some(m) = r.about("C22") {
			return Err(m.to_string());
		}
		let mut base = c.clone();
		base.sched = Sched { mode: 0, tape: Hex(vec![]), noise: false, handler_yields: 0, ..c.sched.clone() };
		for b in &mut base.conns {
			b.net = NetCfg::plain();
		}
		let bsim = run_case(&base);
		let br = judge(&bsim, &who);
		if let Some(m) = br.about("C22") {
			return Err(format!("whole-packet delivery: {}", m));
		}
		let (a, b) = (conversations(&sim), conversations(&bsim));
		for (ci, (x, y)) in a.iter().zip(&b).enumerate() {
			ensure!(x.len() == y.len(), "connection {}: {} channels, {} with whole packets", ci, x.len(), y.len());
			for (k, (x, y)) in x.iter().zip(y).enumerate() {
				if let (Some(x), Some(y)) = (x, y) {
					ensure!(
						x == y,
						"connection {} channel {}: {} / {} bytes, {:?}; with whole packets {} / {} bytes, {:?}",
						ci, k, x.0.len(), x.1.len(), (&x.2, x.3, x.4, &x.5), y.0.len(), y.1.len(), (&y.2, y.3, y.4, &y.5)
					);
				}
			}
		}
		let cut = c.conns.iter().any(|c| c.net != NetCfg::plain());
		let mut o = Obs::new(cut && r.programs > 0);
		labels(&mut o, c, &sim, &r);
		o.inner += bsim.polls;
		Ok(o)
	}
}
