//! The scripted reference client: authentication and channels (RFC 4252, RFC 4254).
use crate::{
	rmsg::*,
	sim::{Actor, ConnNet, ProgSpec},
	tclient::*,
	util::*,
};
use serde::{Deserialize, Serialize};

/// A signed public-key request and what is wrong with it.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SignOp {
	pub user: Hex,
	pub service: Hex,
	pub key: u8,
	pub wrong: u8,
}
pub const WRONGS: u8 = 110;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
	Service(Hex),
	Auth(RMsg),
	Sign(SignOp),
	Open { ty: Hex, cn: u32, window: u32, max: u32, auto: bool },
	/// Start a program (255: the shell)
	Start { ch: u8, prog: u8, want: bool },
	Req { ch: u8, ty: Hex, data: Hex, want: bool },
	Data { ch: u8, len: u32, chunk: u32 },
	Ext { ch: u8, ty: u32, len: u32 },
	Eof(u8),
	Close(u8),
	Adjust(u8, u32),
	Misc(RMsg),
	/// Wait for all replies
	Sync,
	/// Wait until nothing happens anymore
	Settle,
	/// Wait until the server closed the channel
	WaitEnd(u8),
	/// Any payload in a proper packet
	Payload(Hex),
	/// A proper cipher packet with other length and padding fields
	Framed(Hex, i32, i32),
	Raw(Hex),
	/// Half-close
	Cut,
	Reset,
	/// Stop reading
	Deaf,
	/// So many messages at once, in turn; on a channel if given
	Burst { n: u32, msgs: Vec<RMsg>, ch: Option<u8> },
	/// Open a channel, use it if given a program, close it; so many times
	Cycles { left: u32, prog: Option<u8>, stage: u8 },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sent {
	Start { prog: Option<u8>, want: bool },
	Req { want: bool },
	Data(u64),
	Ext(u64),
	Eof,
	Close,
	Adjust(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rcv {
	Data(Vec<u8>),
	Ext(u32, Vec<u8>),
	Eof,
	Close,
	Exit(u32),
	Success,
	Failure,
	Adjust(u32),
	Request(Vec<u8>, bool),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ChState {
	Opening,
	Open,
	Refused(u32),
}

#[derive(Clone, Debug)]
pub struct Chan {
	pub cn: u32,
	pub sn: u32,
	pub ty: Vec<u8>,
	pub state: ChState,
	pub auto: bool,
	pub max: u32,
	pub window: u32,
	/// What the server may still send
	pub recv_window: u64,
	/// What we may still send
	pub send_window: u64,
	pub initial_send_window: u64,
	pub send_max: u32,
	pub sent: Vec<(u64, Sent)>,
	pub rcvd: Vec<(u64, Rcv)>,
	pub sent_pos: u64,
	pub sent_eof: bool,
	pub sent_close: bool,
	pub rcvd_close: bool,
	pub opened_at: u64,
	pub confirmed_at: Option<u64>,
	want: usize,
	got: usize,
	/// Things the server did that RFC 4254 does not allow: (property, what)
	pub wrong: Vec<(&'static str, String)>,
}

impl Chan {
	pub fn out(&self, stream: usize) -> Vec<u8> {
		let mut v = vec![];
		for (_, r) in &self.rcvd {
			match (stream, r) {
				(0, Rcv::Data(d)) => v.extend_from_slice(d),
				(1, Rcv::Ext(1, d)) => v.extend_from_slice(d),
				_ => {}
			}
		}
		v
	}
	pub fn count(&self, f: impl Fn(&Rcv) -> bool) -> usize {
		self.rcvd.iter().filter(|(_, r)| f(r)).count()
	}
	pub fn pos(&self, f: impl Fn(&Rcv) -> bool) -> Option<usize> {
		self.rcvd.iter().position(|(_, r)| f(r))
	}
	/// All window ever granted to the server.
	pub fn granted(&self) -> u64 {
		let mut g = u64::from(self.window);
		for (_, s) in &self.sent {
			if let Sent::Adjust(n) = s {
				g = (g + u64::from(*n)).min(1 << 40);
			}
		}
		g
	}
	pub fn total_received(&self) -> u64 {
		self.rcvd
			.iter()
			.map(|(_, r)| match r {
				Rcv::Data(d) | Rcv::Ext(_, d) => d.len() as u64,
				_ => 0,
			})
			.sum()
	}
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ClientCfg {
	pub hs: HsCfg,
	pub ops: Vec<Op>,
	/// Connects after so many others have established a session or ended
	pub after: u8,
	/// Answer a close of the server with a close at once
	pub auto_close: bool,
	/// What the input of programs is made of
	#[serde(default)]
	pub fill: u16,
}

pub struct Client {
	pub id: usize,
	pub t: Transport,
	pub cfg: ClientCfg,
	pub progs: Vec<ProgSpec>,
	pub pc: usize,
	sub: u64,
	settled: bool,
	pub chans: Vec<Chan>,
	/// Kind and payload of every service or authentication request
	pub auth_sent: Vec<(u64, Vec<u8>)>,
	pub auth_rcvd: Vec<(u64, RMsg)>,
	/// Every payload sent under the new keys (true: one of `Op::Payload`)
	pub payloads_sent: Vec<(bool, Vec<u8>)>,
	auth_expect: usize,
	pub authed: bool,
	pub strays: Vec<String>,
	cut: bool,
	reset: bool,
	deaf: bool,
	/// Time and number of bytes of everything handed to the transport
	pub sent_log: Vec<(u64, u64)>,
	pub other_rcvd: Vec<RMsg>,
	pub handshake_at: Option<u64>,
	pub skipped: usize,
}

pub fn ed_key(n: u8) -> ed25519_dalek::Keypair {
	let secret = ed25519_dalek::SecretKey::from_bytes(&content(mix(0xed00 + u64::from(n)), 0, 32)).expect("key");
	let public = (&secret).into();
	ed25519_dalek::Keypair { secret, public }
}

pub fn two_strings(a: &[u8], b: &[u8]) -> Vec<u8> {
	let mut v = vec![];
	put_str(&mut v, a);
	put_str(&mut v, b);
	v
}

/// RFC 4252 section 7
pub fn signed_data(sid: &[u8], user: &[u8], service: &[u8], alg: &[u8], blob: &[u8]) -> Vec<u8> {
	let mut m = vec![];
	put_str(&mut m, sid);
	m.push(50);
	put_str(&mut m, user);
	put_str(&mut m, service);
	put_str(&mut m, b"publickey");
	m.push(1);
	put_str(&mut m, alg);
	put_str(&mut m, blob);
	m
}

impl Client {
	pub fn new(id: usize, cfg: ClientCfg, progs: Vec<ProgSpec>, expect: Expect) -> Self {
		Self {
			id,
			t: Transport::new(cfg.hs.clone(), expect),
			cfg,
			progs,
			pc: 0,
			sub: 0,
			settled: false,
			chans: vec![],
			auth_sent: vec![],
			auth_rcvd: vec![],
			payloads_sent: vec![],
			auth_expect: 0,
			authed: false,
			strays: vec![],
			cut: false,
			reset: false,
			deaf: false,
			sent_log: vec![],
			other_rcvd: vec![],
			handshake_at: None,
			skipped: 0,
		}
	}

	/// The script is finished.
	pub fn finished(&self) -> bool {
		self.pc >= self.cfg.ops.len()
	}

	pub fn owner(&self, chan: usize) -> u64 {
		mix(((self.id as u64) << 32) + (u64::from(self.cfg.fill) << 40) + chan as u64 + 5)
	}

	fn ch(&self, i: u8) -> Option<usize> {
		(!self.chans.is_empty()).then(|| usize::from(i) % self.chans.len())
	}

	fn send(&mut self, payload: &[u8], now: u64) {
		self.t.send(payload);
		self.payloads_sent.push((matches!(self.cfg.ops.get(self.pc), Some(Op::Payload(_))), payload.to_vec()));
		let n = self.t.sent_bytes;
		self.sent_log.push((now, n));
	}

	fn msg(&mut self, kind: &str, v: Vec<V>, now: u64) {
		let p = RMsg::new(kind, v).encode();
		self.send(&p, now);
	}

	pub fn sign_request(&self, o: &SignOp) -> RMsg {
		use ed25519_dalek::Signer;
		let k = ed_key(o.key);
		let other = ed_key(o.key ^ 1);
		let alg = &b"ssh-ed25519"[..];
		let mut blob = two_strings(alg, k.public.as_bytes());
		let mut sid = self.t.info.sid.clone();
		let (mut user, mut service) = (o.user.to_vec(), o.service.to_vec());
		let mut salg = alg.to_vec();
		let mut sblob = blob.clone();
		let mut signer = k;
		match o.wrong {
			1 => {
				if let Some(b) = sid.first_mut() {
					*b ^= 1
				}
			}
			2 => user.push(b'x'),
			3 => service.push(b'x'),
			4 => signer = other,
			5 => salg = b"ssh-ed25518".to_vec(),
			6 => sblob = two_strings(alg, other.public.as_bytes()),
			7 => sid = vec![],
			8 => sid = content(3, 0, 32),
			14 => {
				// Keys of another length
				blob = two_strings(alg, &signer.public.as_bytes()[..31]);
				sblob = blob.clone();
			}
			15 => {
				blob = two_strings(alg, &[&signer.public.as_bytes()[..], &[0]].concat());
				sblob = blob.clone();
			}
			16 => {
				// No point of the curve
				let mut b = [0; 32];
				b[0] = 2;
				blob = two_strings(alg, &b);
				sblob = blob.clone();
			}
			_ => {}
		}
		let mut data = signed_data(&sid, &user, &service, &salg, &sblob);
		if o.wrong == 9 {
			// Without the "has signature" flag
			let i = 4 + sid.len() + 1 + 4 + user.len() + 4 + service.len() + 4 + 9;
			data[i] = 0;
		}
		match o.wrong {
			// Without the session identifier; without its length
			17 => data.drain(..4 + sid.len()).for_each(drop),
			18 => data.drain(..4).for_each(drop),
			// Something behind what is signed; the hash of it
			19 => data.push(0),
			20 => {
				use sha2::Digest;
				data = sha2::Sha256::digest(&data).to_vec()
			}
			_ => {}
		}
		let mut sig = signer.sign(&data).to_bytes().to_vec();
		if o.wrong == 10 {
			sig[7] ^= 4;
		}
		let mut alg_field = alg.to_vec();
		let mut sig_blob = two_strings(alg, &sig);
		let mut blob_field = blob;
		match o.wrong {
			11 => sig_blob = two_strings(b"ssh-rsa", &sig),
			12 => alg_field = b"ssh-rsa".to_vec(),
			13 => blob_field.push(0),
			21 => sig_blob = two_strings(alg, &[0; 64]),
			22 => sig_blob = two_strings(alg, &[&sig[..], &sig].concat()),
			23 => sig_blob.push(0),
			24 => sig_blob = sig,
			25 => {
				sig.rotate_left(32);
				sig_blob = two_strings(alg, &sig)
			}
			// Signatures of any length
			26.. => {
				let n = usize::from(o.wrong) - 26;
				if n == 64 {
					sig[1] ^= 1;
				}
				sig.resize(n, 0);
				sig_blob = two_strings(alg, &sig)
			}
			_ => {}
		}
		RMsg::new(
			"ua_pk_signed",
			vec![
				V::S(o.user.clone()),
				V::S(o.service.clone()),
				V::S(Hex(alg_field)),
				V::S(Hex(blob_field)),
				V::S(Hex(sig_blob)),
			],
		)
	}

	fn next(&mut self) {
		self.pc += 1;
		self.sub = 0;
		self.settled = false;
	}

	fn synced(&self) -> bool {
		// Requests after the one that succeeded are not answered.
		(self.authed || self.auth_rcvd.len() >= self.auth_expect)
			&& self.chans.iter().all(|c| c.state != ChState::Opening)
			&& self.chans.iter().all(|c| c.got >= c.want || c.rcvd_close || c.sent_close)
	}

	fn on_payload(&mut self, p: &[u8], now: u64) {
		let m = match decode(p) {
			Some(m) => m,
			None => {
				self.strays.push(format!("undecodable message {}", hex_short(p)));
				return;
			}
		};
		match &*m.kind {
			"service_accept" | "ua_failure" | "ua_success" | "ua_pk_ok" => {
				if m.kind == "ua_success" {
					self.authed = true;
				}
				self.auth_rcvd.push((now, m));
				return;
			}
			"ignore" | "debug" | "unimplemented" | "disconnect" | "ua_banner" => {
				self.other_rcvd.push(m);
				return;
			}
			_ => {}
		}
		if m.kind == "open_confirmation" || m.kind == "open_failure" {
			let cn = m.u(0);
			let i = match self.chans.iter().position(|c| c.cn == cn && c.state == ChState::Opening) {
				Some(i) => i,
				None => {
					self.strays.push(format!("{} for channel {} which is not being opened", m.kind, cn));
					return;
				}
			};
			if m.kind == "open_failure" {
				self.chans[i].state = ChState::Refused(m.u(1));
				return;
			}
			let sn = m.u(1);
			if let Some(o) = self
				.chans
				.iter()
				.find(|c| c.state == ChState::Open && c.sn == sn && !(c.sent_close && c.rcvd_close))
			{
				let w = format!("server number {} is already used by channel {}", sn, o.cn);
				self.chans[i].wrong.push(("C20", w));
			}
			let c = &mut self.chans[i];
			c.state = ChState::Open;
			c.sn = sn;
			c.confirmed_at = Some(now);
			c.send_window = u64::from(m.u(2));
			c.initial_send_window = c.send_window;
			c.send_max = m.u(3);
			return;
		}
		let known = matches!(
			&*m.kind,
			"window_adjust" | "data" | "extended_data" | "eof" | "close" | "request" | "success" | "failure"
		);
		if !known {
			self.strays.push(format!("unexpected {}", m.kind));
			return;
		}
		let cn = m.u(0);
		let i = match self
			.chans
			.iter()
			.rposition(|c| c.cn == cn && c.state == ChState::Open && !(c.rcvd_close && c.sent_close))
		{
			Some(i) => i,
			None => {
				self.strays.push(format!("{} for channel {} which is not open", m.kind, cn));
				return;
			}
		};
		let auto_close = self.cfg.auto_close;
		let c = &mut self.chans[i];
		if c.rcvd_close {
			c.wrong.push(("C19", format!("{} after the close", m.kind)));
		}
		let r = match &*m.kind {
			"window_adjust" => {
				c.send_window += u64::from(m.u(1));
				if c.send_window > u64::from(u32::MAX) {
					c.wrong.push(("C21", "window beyond 2^32-1".into()));
				}
				Rcv::Adjust(m.u(1))
			}
			"data" => Rcv::Data(m.s(1).to_vec()),
			"extended_data" => Rcv::Ext(m.u(1), m.s(2).to_vec()),
			"eof" => Rcv::Eof,
			"close" => Rcv::Close,
			"success" => Rcv::Success,
			"failure" => Rcv::Failure,
			_ => match (m.s(1), decode_session(m.s(1), m.s(3))) {
				(b"exit-status", Some(x)) if !m.b(2) => Rcv::Exit(x.u(0)),
				(ty, _) => Rcv::Request(ty.to_vec(), m.b(2)),
			},
		};
		let mut adjust = None;
		match &r {
			Rcv::Data(d) | Rcv::Ext(_, d) => {
				let l = d.len() as u64;
				if l > u64::from(c.max) {
					c.wrong
						.push(("C21", format!("{} bytes in a message, maximum {}", l, c.max)));
				}
				if l > c.recv_window {
					c.wrong
						.push(("C21", format!("{} bytes sent, window {}", l, c.recv_window)));
				}
				c.recv_window = c.recv_window.saturating_sub(l);
				if c.auto && c.recv_window <= u64::from(c.window / 2) && !c.sent_close {
					let n = u64::from(c.window) - c.recv_window.min(u64::from(c.window));
					if n > 0 {
						adjust = Some(n as u32);
						c.recv_window += n;
					}
				}
			}
			Rcv::Success | Rcv::Failure => c.got += 1,
			Rcv::Close => c.rcvd_close = true,
			_ => {}
		}
		let close = r == Rcv::Close && auto_close && !c.sent_close;
		c.rcvd.push((now, r));
		let sn = c.sn;
		if let Some(n) = adjust {
			c.sent.push((now, Sent::Adjust(n)));
			self.msg("window_adjust", vec![V::U(sn), V::U(n)], now);
		}
		if close {
			let c = &mut self.chans[i];
			c.sent_close = true;
			c.sent.push((now, Sent::Close));
			self.msg("close", vec![V::U(sn)], now);
		}
	}

	fn act(&mut self, now: u64) {
		let op = self.cfg.ops[self.pc].clone();
		// Channel operations need an open channel.
		let target = match &op {
			Op::Start { ch, .. }
			| Op::Req { ch, .. }
			| Op::Data { ch, .. }
			| Op::Ext { ch, .. }
			| Op::Eof(ch)
			| Op::Close(ch)
			| Op::Adjust(ch, _) => {
				let i = self.ch(*ch).filter(|i| {
					let c = &self.chans[*i];
					c.state == ChState::Open && !c.sent_close
				});
				match i {
					Some(i) => i,
					None => {
						self.skipped += 1;
						return self.next();
					}
				}
			}
			_ => 0,
		};
		match op {
			Op::Service(s) => {
				let p = RMsg::new("service_request", vec![V::S(s)]).encode();
				self.auth_sent.push((now, p.clone()));
				self.auth_expect += 1;
				self.send(&p, now);
			}
			Op::Auth(m) => {
				let p = m.encode();
				self.auth_sent.push((now, p.clone()));
				if !self.authed {
					self.auth_expect += 1;
				}
				self.send(&p, now);
			}
			Op::Sign(o) => {
				let p = self.sign_request(&o).encode();
				self.auth_sent.push((now, p.clone()));
				if !self.authed {
					self.auth_expect += 1;
				}
				self.send(&p, now);
			}
			Op::Open { ty, cn, window, max, auto } => {
				let mut n = cn;
				while self.chans.iter().any(|c| {
					c.cn == n
						&& match c.state {
							ChState::Opening => true,
							ChState::Open => !(c.sent_close && c.rcvd_close),
							ChState::Refused(_) => false,
						}
				}) {
					n = n.wrapping_add(1);
				}
				self.chans.push(Chan {
					cn: n,
					sn: 0,
					ty: ty.to_vec(),
					state: ChState::Opening,
					auto,
					max,
					window,
					recv_window: u64::from(window),
					send_window: 0,
					initial_send_window: 0,
					send_max: 0,
					sent: vec![],
					rcvd: vec![],
					sent_pos: 0,
					sent_eof: false,
					sent_close: false,
					rcvd_close: false,
					opened_at: now,
					confirmed_at: None,
					want: 0,
					got: 0,
					wrong: vec![],
				});
				self.msg("open", vec![V::S(ty), V::U(n), V::U(window), V::U(max)], now);
			}
			Op::Start { prog, want, .. } => {
				let sn = self.chans[target].sn;
				let shell = prog == 255 || self.progs.is_empty();
				let k = if shell { 0 } else { usize::from(prog) % self.progs.len() };
				let (ty, data) = if shell {
					("shell", vec![])
				} else {
					let mut d = vec![];
					put_str(&mut d, &crate::sim::command_of(&self.progs, k));
					("exec", d)
				};
				let c = &mut self.chans[target];
				c.want += usize::from(want);
				c.sent.push((now, Sent::Start { prog: (!shell).then(|| k as u8), want }));
				self.msg("request", vec![V::U(sn), V::S(hx(ty)), V::B(want), V::S(Hex(data))], now);
			}
			Op::Req { ty, data, want, .. } => {
				let c = &mut self.chans[target];
				let sn = c.sn;
				c.want += usize::from(want);
				c.sent.push((now, Sent::Req { want }));
				self.msg("request", vec![V::U(sn), V::S(ty), V::B(want), V::S(data)], now);
			}
			Op::Data { len, chunk, .. } => {
				let owner = self.owner(target);
				let c = &mut self.chans[target];
				if c.sent_eof {
					return self.next();
				}
				let left = u64::from(len) - self.sub;
				let n = left
					.min(u64::from(chunk.max(1)))
					.min(c.send_window)
					.min(u64::from(c.send_max));
				if n == 0 && len > 0 {
					self.skipped += 1;
					return self.next();
				}
				let d = content(owner, c.sent_pos as usize, n as usize);
				c.sent_pos += n;
				c.send_window -= n;
				c.sent.push((now, Sent::Data(n)));
				let sn = c.sn;
				self.msg("data", vec![V::U(sn), V::S(Hex(d))], now);
				self.sub += n;
				if self.sub < u64::from(len) {
					return;
				}
			}
			Op::Ext { ty, len, .. } => {
				let c = &mut self.chans[target];
				if c.sent_eof {
					return self.next();
				}
				let n = u64::from(len).min(c.send_window).min(u64::from(c.send_max));
				c.send_window -= n;
				c.sent.push((now, Sent::Ext(n)));
				let sn = c.sn;
				self.msg("extended_data", vec![V::U(sn), V::U(ty), V::S(Hex(content(1, 0, n as usize)))], now);
			}
			Op::Eof(_) => {
				let c = &mut self.chans[target];
				if c.sent_eof {
					return self.next();
				}
				c.sent_eof = true;
				c.sent.push((now, Sent::Eof));
				let sn = c.sn;
				self.msg("eof", vec![V::U(sn)], now);
			}
			Op::Close(_) => {
				let c = &mut self.chans[target];
				c.sent_close = true;
				c.sent.push((now, Sent::Close));
				let sn = c.sn;
				self.msg("close", vec![V::U(sn)], now);
			}
			Op::Adjust(_, n) => {
				let c = &mut self.chans[target];
				// The window must not exceed 2^32-1.
				let n = u64::from(n).min(u64::from(u32::MAX) - c.recv_window.min(u64::from(u32::MAX))) as u32;
				c.recv_window += u64::from(n);
				c.sent.push((now, Sent::Adjust(n)));
				let sn = c.sn;
				self.msg("window_adjust", vec![V::U(sn), V::U(n)], now);
			}
			Op::Misc(m) => {
				let p = m.encode();
				self.send(&p, now);
			}
			Op::Payload(p) => self.send(&p, now),
			Op::Framed(p, l, q) => {
				let p = enc_packet(&p, 0, l, q);
				let b = self.t.seal(&p);
				self.t.send_raw(&b);
			}
			Op::Raw(b) => {
				if self.t.stop_at.is_some() {
					self.t.tampered = true;
					return;
				}
				self.t.tampered |= self.t.tamper.is_some();
				self.t.send_raw(&b)
			}
			Op::Cut => self.cut = true,
			Op::Reset => self.reset = true,
			Op::Deaf => self.deaf = true,
			Op::Burst { n, msgs, ch } => {
				let sn = match ch {
					None => None,
					Some(c) => match self.ch(c) {
						Some(i) if self.chans[i].state == ChState::Open => Some(self.chans[i].sn),
						_ => return self.next(),
					},
				};
				let payloads: Vec<Vec<u8>> = msgs
					.into_iter()
					.map(|mut m| {
						if let (Some(sn), true) = (sn, kind(&m.kind).num > 90) {
							m.v[0] = V::U(sn);
						}
						m.encode()
					})
					.collect();
				for i in 0..n as usize * usize::from(!payloads.is_empty()) {
					self.t.send(&payloads[i % payloads.len()]);
				}
			}
			Op::Cycles { left, prog, stage } => {
				if stage == 0 {
					// Closed by both sides: forget them
					self.chans.clear();
				}
				if left == 0 {
					return self.next();
				}
				// One operation of the round: open, start, end
				let ops = [
					Some(Op::Open { ty: hx("session"), cn: left % 3, window: 1 << 20, max: 1 << 15, auto: true }),
					prog.map(|p| Op::Start { ch: (self.chans.len() % 256) as u8, prog: p, want: true }),
					Some(Op::Close(0)),
				];
				let pc = self.pc;
				if let Some(o) = &ops[usize::from(stage)] {
					let mut o = o.clone();
					// The last channel
					let last = self.chans.len().saturating_sub(1) as u8;
					match &mut o {
						Op::Start { ch, .. } => *ch = last,
						Op::Close(ch) => *ch = last,
						_ => {}
					}
					self.cfg.ops[pc] = o;
					self.act(now);
				}
				self.pc = pc;
				self.cfg.ops[pc] = Op::Cycles { left: left - u32::from(stage == 2), prog, stage: (stage + 1) % 3 };
				return;
			}
			Op::Sync | Op::Settle | Op::WaitEnd(_) => {}
		}
		self.next();
	}
}

impl Actor for Client {
	fn enabled(&self, net: &ConnNet) -> bool {
		if net.wr_dropped.is_some() || !self.t.ready() || self.cut || self.reset {
			return false;
		}
		let op = match self.cfg.ops.get(self.pc) {
			Some(o) => o,
			None => return false,
		};
		if self.t.tampered {
			return self.t.stop_at.is_none();
		}
		let ch = |i: &u8| self.ch(*i).map(|i| &self.chans[i]);
		let opening = |i: &u8| ch(i).map_or(false, |c| c.state == ChState::Opening);
		match op {
			Op::Sync => self.synced(),
			Op::Settle => self.settled,
			Op::WaitEnd(i) => ch(i).map_or(true, |c| c.rcvd_close || matches!(c.state, ChState::Refused(_))),
			Op::Data { ch: i, len, .. } => {
				!opening(i)
					&& ch(i).map_or(true, |c| {
						c.send_window > 0 || *len == 0 || c.sent_eof || c.sent_close || c.state != ChState::Open
					})
			}
			Op::Ext { ch: i, len, .. } => {
				!opening(i)
					&& ch(i).map_or(true, |c| {
						c.send_window >= u64::from(*len) || c.sent_eof || c.sent_close || c.state != ChState::Open
					})
			}
			Op::Burst { ch: Some(i), .. } => !opening(i),
			// Everything before is done
			Op::Cycles { stage, prog, .. } => {
				self.synced()
					&& (*stage < 2 || prog.is_none() || self.chans.last().map_or(true, |c| c.rcvd_close || c.sent_close))
					&& (*stage > 0 || self.chans.is_empty() || self.chans.iter().all(|c| c.sent_close && c.rcvd_close))
			}
			Op::Start { ch: i, .. } | Op::Req { ch: i, .. } | Op::Eof(i) | Op::Close(i) | Op::Adjust(i, _) => !opening(i),
			_ => true,
		}
	}
	fn settling(&self) -> bool {
		self.t.ready() && !self.settled && !self.t.tampered && matches!(self.cfg.ops.get(self.pc), Some(Op::Settle))
	}
	fn settled(&mut self) {
		self.settled = true;
	}
	fn step(&mut self, now: u64) {
		let lens: Vec<usize> = self.chans.iter().map(|c| c.sent.len()).collect();
		self.act(now);
		if self.t.stop_at.is_some() && self.t.tampered {
			// Not sent any more
			for (c, l) in self.chans.iter_mut().zip(lens) {
				c.sent.truncate(l);
			}
		}
	}
	fn on_bytes(&mut self, b: &[u8], now: u64) {
		self.t.on_bytes(b);
		if self.t.phase == Phase::Enc && self.handshake_at.is_none() {
			self.handshake_at = Some(now);
		}
		for p in std::mem::take(&mut self.t.payloads) {
			self.on_payload(&p, now);
		}
	}
	fn out(&mut self) -> &mut Vec<u8> {
		&mut self.t.out
	}
	fn pending_out(&self) -> usize {
		self.t.out.len()
	}
	fn closing(&self) -> (bool, bool) {
		(self.cut || (self.t.cut && matches!(self.cfg.hs.fault, Fault::Cut(_))), self.reset)
	}
	fn deaf(&self) -> bool {
		self.deaf
	}
	fn connect_after(&self) -> usize {
		usize::from(self.cfg.after)
	}
	fn is_established(&self) -> bool {
		self.authed
	}
}

pub fn ua_none(user: &[u8]) -> RMsg {
	RMsg::new("ua_none", vec![s(user), s(b"ssh-connection")])
}

/// Log in as connection `id`.
pub fn login(id: usize, wait: bool) -> Vec<Op> {
	let mut v = vec![Op::Service(hx("ssh-userauth"))];
	if wait {
		v.push(Op::Sync);
	}
	v.push(Op::Auth(ua_none(format!("conn-{}", id).as_bytes())));
	if wait {
		v.push(Op::Sync);
	}
	v
}
