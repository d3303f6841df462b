//! Deterministic simulation: the real server future, driven by our own executor, over in-memory
//! connections, scripted programs and scripted reference clients.
use crate::{
	mem::{outside, Meter},
	tclient::*,
	util::*,
};
use async_trait::async_trait;
use futures::{
	future::poll_fn,
	io::{AsyncRead, AsyncWrite},
	task::{waker, ArcWake},
};
use nora_ssh::{
	auth::Auth,
	cipher::ChaCha20Poly1305,
	server::{IoSet, Server, ServerHandlers, SpawnType},
	Identifier,
};
use rand::{CryptoRng, RngCore, SeedableRng};
use rand_chacha::ChaCha20Rng;
use serde::{Deserialize, Serialize};
use std::{
	cell::Cell,
	collections::VecDeque,
	future::Future,
	io,
	pin::Pin,
	sync::{
		atomic::{AtomicBool, Ordering},
		Arc, Mutex, MutexGuard,
	},
	task::{Context, Poll, Waker},
};

// ------------------------------------------------------------------ case description

/// What a program does, one event at a time.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum PEv {
	/// Write so many bytes to stdout (false) or stderr (true)
	Out(bool, u32),
	/// End a stream; `true`: reading it gives an error
	End(bool, bool),
	Exit(u32),
	/// Take so many more bytes of input
	Accept(u32),
	AcceptAll,
	/// Refuse all further input
	BreakIn,
	/// Go on when so many bytes of input have arrived or the input is closed
	WaitIn(u32),
	WaitInClosed,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ProgSpec {
	pub refuse: bool,
	pub stdin: bool,
	pub stdout: bool,
	pub stderr: bool,
	/// How much input the program takes at first; `None`: any amount
	pub accept: Option<u32>,
	pub script: Vec<PEv>,
	/// The command, to which the number of the program is added
	pub command: Hex,
}

/// How a stream is portioned: 0 whole, 1 single bytes, else random portions up to this size.
pub type Portion = u16;

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub struct NetCfg {
	/// Portions in which bytes become available to the server
	pub deliver: Portion,
	/// Portions in which the server reads them
	pub read: Portion,
	/// Portions in which the transport takes output
	pub write: Portion,
	/// Room for output before the transport blocks (0: unlimited)
	pub room: u32,
	/// Portions in which the client reads
	pub drain: Portion,
	/// What has been written only moves on when it is flushed, or the buffer is full:
	/// of the transport (1), of the inputs of programs (2)
	#[serde(default)]
	pub buffered: u8,
}
impl NetCfg {
	pub fn plain() -> Self {
		Self { deliver: 0, read: 0, write: 0, room: 0, drain: 0, buffered: 0 }
	}
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Sched {
	/// 0 eager, 1 random, 2 priorities with change points, 3 the server comes last
	pub mode: u8,
	pub tape: Hex,
	/// Spurious polls, spurious Pending
	pub noise: bool,
	/// How often handlers return Pending
	pub handler_yields: u8,
	/// Seed of the server's random generators
	pub rng: u64,
	/// Seed for the order in which the server's select! looks at its branches
	pub select: u64,
}
impl Sched {
	pub fn plain() -> Self {
		Self { mode: 0, tape: Hex(vec![]), noise: false, handler_yields: 0, rng: 1, select: 1 }
	}
}

// ------------------------------------------------------------------ the world outside the server

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum AuthCall {
	None,
	Password(Vec<u8>),
	PublicKey { algorithm: Vec<u8>, key: Vec<u8>, signature: Vec<u8>, message: Vec<u8> },
	Exists { algorithm: Vec<u8>, key: Vec<u8> },
}

#[derive(Clone, Debug)]
pub enum Ev {
	Accept(usize),
	Auth { user: Vec<u8>, service: Vec<u8>, call: AuthCall, accepted: bool },
	Spawn { conn: usize, shell: bool, command: Vec<u8>, inst: Option<usize> },
	StdinClosed(usize),
	ReadDropped(usize),
	WriteDropped(usize),
}

#[derive(Default)]
pub struct ConnNet {
	cfg: Option<NetCfg>,
	inbox: VecDeque<u8>,
	pub eof: bool,
	pub reset: bool,
	rd_waker: Option<Waker>,
	outbox: VecDeque<u8>,
	/// Written but not flushed
	wbuf: VecDeque<u8>,
	wr_waker: Option<Waker>,
	pub rd_dropped: Option<u64>,
	pub wr_dropped: Option<u64>,
	pub server_read: u64,
	/// The parts of the transport have been dropped
	pub gone: [bool; 2],
	/// How many things the server did elsewhere while there was something to read
	hungry: u64,
	pub max_hungry: u64,
	/// Users the application told the server about, and those which have been dropped
	pub users: [u32; 2],
}

pub struct Inst {
	pub conn: usize,
	pub prog: usize,
	pub id: u64,
	/// What its output is made of
	fill: u64,
	pc: usize,
	/// Made available / read by the server, for stdout and stderr
	pub avail: [u64; 2],
	pub read: [u64; 2],
	/// Ended; `Some(true)`: with an error
	pub ended: [Option<bool>; 2],
	out_waker: [Option<Waker>; 2],
	pub exited: Option<u32>,
	exit_waker: Option<Waker>,
	pub cap: Option<u64>,
	pub broken: bool,
	pub input: Vec<u8>,
	in_waker: Option<Waker>,
	/// Input written but not flushed
	ibuf: VecDeque<u8>,
	/// Dropped by the server: stdout, stderr, stdin, the future of its end
	pub gone: [bool; 4],
	hungry: [u64; 2],
	pub max_hungry: u64,
	pub stdin_closed: Option<u64>,
	/// A write was refused because the input is broken
	pub refused: bool,
}
impl Inst {
	pub fn owner(&self, stream: usize) -> u64 {
		mix(mix(self.fill) + self.id * 4 + stream as u64 + 1000)
	}
	/// All its events have happened.
	pub fn done(&self, spec: &ProgSpec) -> bool {
		self.pc >= spec.script.len()
	}
}

/// How authentication requests are decided.
#[derive(Clone, Debug)]
pub enum Decide {
	/// Everybody gets in; the user name is the number of the connection
	Everyone,
	/// Per connection, call by call; `None`: if the signature is valid. Beyond the list: refuse.
	/// A call belongs to the connection whose number is the first byte of the user name, or to
	/// the only connection.
	Script(Vec<Vec<Option<bool>>>),
}

pub struct World {
	pub now: u64,
	pub tape: Tape,
	noise: bool,
	/// What kind of errors streams give
	kind: u8,
	noise_left: u32,
	yields: u8,
	pub nets: Vec<ConnNet>,
	accept_queue: VecDeque<usize>,
	accept_waker: Option<Waker>,
	pub log: Vec<(u64, Ev)>,
	pub insts: Vec<Inst>,
	pub progs: Vec<Vec<ProgSpec>>,
	decide: Decide,
	calls: Vec<usize>,
	spawns: Vec<usize>,
	handler_wakers: Vec<Waker>,
	/// Set when the server misuses an interface of the application
	pub misuse: Option<String>,
	/// Everything the server did with success: reads, writes, accepted connections
	pub io_ops: u64,
	accept_hungry: u64,
	pub max_accept_hungry: u64,
}

/// What the server turned to
#[derive(Clone, Copy, PartialEq)]
enum Src {
	Accept,
	Net(usize),
	Out(usize, usize),
	Other,
}

impl World {
	pub fn tick(&mut self) -> u64 {
		self.now += 1;
		self.now
	}
	fn log(&mut self, e: Ev) {
		let t = self.tick();
		self.log.push((t, e));
	}
	/// The server did something: everybody else with something to do has to wait.
	fn did(&mut self, src: Src) {
		self.io_ops += 1;
		if self.accept_queue.is_empty() || src == Src::Accept {
			self.accept_hungry = 0;
		} else {
			self.accept_hungry += 1;
			self.max_accept_hungry = self.max_accept_hungry.max(self.accept_hungry);
		}
		for (i, n) in self.nets.iter_mut().enumerate() {
			if src == Src::Net(i) || n.inbox.is_empty() || n.gone[0] || n.wr_dropped.is_some() {
				n.hungry = 0;
			} else {
				n.hungry += 1;
				n.max_hungry = n.max_hungry.max(n.hungry);
			}
		}
		for (i, p) in self.insts.iter_mut().enumerate() {
			for s in 0..2 {
				if src == Src::Out(i, s) || p.avail[s] == p.read[s] || p.gone[s] {
					p.hungry[s] = 0;
				} else {
					p.hungry[s] += 1;
					p.max_hungry = p.max_hungry.max(p.hungry[s]);
				}
			}
		}
	}
	/// A stream is broken for good, for whatever reason.
	fn broken(&self, usual: io::ErrorKind) -> io::Error {
		use io::ErrorKind::*;
		let kinds = [BrokenPipe, ConnectionReset, Other, UnexpectedEof, TimedOut, NotConnected, ConnectionAborted, InvalidData, PermissionDenied, WriteZero];
		(*kinds.get(usize::from(self.kind) % (2 * kinds.len())).unwrap_or(&usual)).into()
	}
	fn noise(&mut self) -> bool {
		if !self.noise || self.noise_left == 0 {
			return false;
		}
		let n = self.tape.below(8) == 7;
		if n {
			self.noise_left -= 1;
		}
		n
	}
	fn portion(&mut self, p: Portion, avail: usize) -> usize {
		if avail == 0 {
			return 0;
		}
		// Keep the number of portions of large transfers within reason.
		let least = (avail / 48).max(1);
		match p {
			0 => avail,
			1 => least,
			n => {
				let hi = usize::from(n).min(avail);
				let k = if hi <= 250 {
					1 + self.tape.below(hi)
				} else {
					1 + (self.tape.below(256) << 8 | self.tape.below(256)) % hi
				};
				k.max(least).min(avail)
			}
		}
	}
}

pub type Shared = Arc<Mutex<World>>;

fn lock(w: &Shared) -> MutexGuard<'_, World> {
	match w.lock() {
		Ok(g) => g,
		Err(e) => e.into_inner(),
	}
}

fn wake(w: &mut Option<Waker>) {
	if let Some(w) = w.take() {
		w.wake()
	}
}

pub struct Rd(usize, Shared);
pub struct Wr(usize, Shared);

impl AsyncRead for Rd {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
		let _o = outside();
		let w = &mut *lock(&self.1);
		let i = self.0;
		if buf.is_empty() {
			return Poll::Ready(Ok(0));
		}
		if w.nets[i].reset {
			return Poll::Ready(Err(w.broken(io::ErrorKind::ConnectionReset)));
		}
		if w.noise() {
			cx.waker().wake_by_ref();
			return Poll::Pending;
		}
		let avail = w.nets[i].inbox.len().min(buf.len());
		if avail == 0 {
			if w.nets[i].eof && w.nets[i].inbox.is_empty() {
				return Poll::Ready(Ok(0));
			}
			w.nets[i].rd_waker = Some(cx.waker().clone());
			return Poll::Pending;
		}
		let p = w.nets[i].cfg.as_ref().map_or(0, |c| c.read);
		let n = w.portion(p, avail);
		for b in &mut buf[..n] {
			*b = w.nets[i].inbox.pop_front().unwrap();
		}
		w.nets[i].server_read += n as u64;
		w.did(Src::Net(i));
		Poll::Ready(Ok(n))
	}
}
impl Drop for Rd {
	fn drop(&mut self) {
		let _o = outside();
		let mut w = lock(&self.1);
		let t = w.tick();
		w.nets[self.0].rd_dropped = Some(t);
		w.nets[self.0].gone[0] = true;
		w.nets[self.0].rd_waker = None;
		w.log(Ev::ReadDropped(self.0));
	}
}

/// Put what has been written on the wire; `None`: there is no room.
fn transmit(w: &mut World, i: usize, len: usize) -> Option<usize> {
	let cfg = w.nets[i].cfg.clone().unwrap_or_else(NetCfg::plain);
	let room = match cfg.room {
		0 => usize::MAX,
		r => (r as usize).saturating_sub(w.nets[i].outbox.len()),
	};
	match room.min(len) {
		0 => None,
		avail => Some(w.portion(cfg.write, avail)),
	}
}

/// Empty the buffer of a transport.
fn flush_net(w: &mut World, i: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
	while !w.nets[i].wbuf.is_empty() {
		if w.nets[i].reset {
			return Poll::Ready(Err(w.broken(io::ErrorKind::BrokenPipe)));
		}
		if w.noise() {
			cx.waker().wake_by_ref();
			return Poll::Pending;
		}
		let len = w.nets[i].wbuf.len();
		match transmit(w, i, len) {
			None => {
				w.nets[i].wr_waker = Some(cx.waker().clone());
				return Poll::Pending;
			}
			Some(n) => {
				let n = &mut w.nets[i].wbuf.drain(..n).collect::<VecDeque<u8>>();
				w.nets[i].outbox.append(n);
				w.did(Src::Other);
			}
		}
	}
	Poll::Ready(Ok(()))
}

const BUFFER: usize = 4096;

impl AsyncWrite for Wr {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
		let _o = outside();
		let w = &mut *lock(&self.1);
		let i = self.0;
		if w.nets[i].reset {
			return Poll::Ready(Err(w.broken(io::ErrorKind::BrokenPipe)));
		}
		if buf.is_empty() {
			return Poll::Ready(Ok(0));
		}
		if w.noise() {
			cx.waker().wake_by_ref();
			return Poll::Pending;
		}
		if w.nets[i].cfg.as_ref().map_or(false, |c| c.buffered & 1 == 1) {
			if w.nets[i].wbuf.len() >= BUFFER {
				match flush_net(w, i, cx) {
					Poll::Ready(Ok(())) => {}
					Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
					Poll::Pending => return Poll::Pending,
				}
			}
			let n = buf.len().min(BUFFER - w.nets[i].wbuf.len());
			w.nets[i].wbuf.extend(&buf[..n]);
			w.did(Src::Other);
			return Poll::Ready(Ok(n));
		}
		match transmit(w, i, buf.len()) {
			None => {
				w.nets[i].wr_waker = Some(cx.waker().clone());
				Poll::Pending
			}
			Some(n) => {
				w.nets[i].outbox.extend(&buf[..n]);
				w.did(Src::Other);
				Poll::Ready(Ok(n))
			}
		}
	}
	fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
		let _o = outside();
		flush_net(&mut lock(&self.1), self.0, cx)
	}
	fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
		let _o = outside();
		let w = &mut *lock(&self.1);
		if flush_net(w, self.0, cx).is_pending() {
			return Poll::Pending;
		}
		if w.nets[self.0].wr_dropped.is_none() {
			let t = w.tick();
			w.nets[self.0].wr_dropped = Some(t);
		}
		Poll::Ready(Ok(()))
	}
}
impl Drop for Wr {
	fn drop(&mut self) {
		let _o = outside();
		let mut w = lock(&self.1);
		let t = w.tick();
		if w.nets[self.0].wr_dropped.is_none() {
			w.nets[self.0].wr_dropped = Some(t);
		}
		w.nets[self.0].gone[1] = true;
		w.nets[self.0].wr_waker = None;
		w.nets[self.0].wbuf.clear();
		w.log(Ev::WriteDropped(self.0));
	}
}

pub struct PStdin(usize, Shared);
pub struct POut(usize, usize, Shared);

/// Let a program have input; `None`: it does not take any.
fn feed(w: &mut World, i: usize, len: usize) -> Option<usize> {
	let avail = match w.insts[i].cap {
		None => len,
		Some(c) => (c as usize).min(len),
	};
	if avail == 0 {
		return None;
	}
	let p = if w.noise { 300 } else { 0 };
	let n = w.portion(p, avail);
	if w.insts[i].stdin_closed.is_some() {
		w.misuse = Some("input written after it was closed".into());
	}
	if let Some(c) = &mut w.insts[i].cap {
		*c -= n as u64;
	}
	w.did(Src::Other);
	Some(n)
}

fn flush_input(w: &mut World, i: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
	while !w.insts[i].ibuf.is_empty() {
		if w.insts[i].broken {
			w.insts[i].refused = true;
			return Poll::Ready(Err(w.broken(io::ErrorKind::BrokenPipe)));
		}
		if w.noise() {
			cx.waker().wake_by_ref();
			return Poll::Pending;
		}
		let len = w.insts[i].ibuf.len();
		match feed(w, i, len) {
			None => {
				w.insts[i].in_waker = Some(cx.waker().clone());
				return Poll::Pending;
			}
			Some(n) => {
				let b: Vec<u8> = w.insts[i].ibuf.drain(..n).collect();
				w.insts[i].input.extend_from_slice(&b);
			}
		}
	}
	Poll::Ready(Ok(()))
}

impl AsyncWrite for PStdin {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
		let _o = outside();
		let w = &mut *lock(&self.1);
		let i = self.0;
		if w.insts[i].broken {
			w.insts[i].refused = true;
			return Poll::Ready(Err(w.broken(io::ErrorKind::BrokenPipe)));
		}
		if buf.is_empty() {
			return Poll::Ready(Ok(0));
		}
		if w.noise() {
			cx.waker().wake_by_ref();
			return Poll::Pending;
		}
		let c = w.insts[i].conn;
		if w.nets[c].cfg.as_ref().map_or(false, |c| c.buffered & 2 == 2) {
			if w.insts[i].ibuf.len() >= BUFFER {
				match flush_input(w, i, cx) {
					Poll::Ready(Ok(())) => {}
					Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
					Poll::Pending => return Poll::Pending,
				}
			}
			let n = buf.len().min(BUFFER - w.insts[i].ibuf.len());
			w.insts[i].ibuf.extend(&buf[..n]);
			w.did(Src::Other);
			return Poll::Ready(Ok(n));
		}
		match feed(w, i, buf.len()) {
			None => {
				w.insts[i].in_waker = Some(cx.waker().clone());
				Poll::Pending
			}
			Some(n) => {
				w.insts[i].input.extend_from_slice(&buf[..n]);
				Poll::Ready(Ok(n))
			}
		}
	}
	fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
		let _o = outside();
		flush_input(&mut lock(&self.1), self.0, cx)
	}
	fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
		let _o = outside();
		let w = &mut *lock(&self.1);
		if flush_input(w, self.0, cx).is_pending() {
			return Poll::Pending;
		}
		close_stdin(w, self.0);
		Poll::Ready(Ok(()))
	}
}
fn close_stdin(w: &mut World, i: usize) {
	if w.insts[i].stdin_closed.is_none() {
		let t = w.tick();
		w.insts[i].stdin_closed = Some(t);
		w.log(Ev::StdinClosed(i));
	}
}
impl Drop for PStdin {
	fn drop(&mut self) {
		let _o = outside();
		let w = &mut *lock(&self.1);
		close_stdin(w, self.0);
		w.insts[self.0].gone[2] = true;
		w.insts[self.0].in_waker = None;
	}
}

impl Drop for POut {
	fn drop(&mut self) {
		let _o = outside();
		let w = &mut *lock(&self.2);
		w.insts[self.0].gone[self.1] = true;
		w.insts[self.0].out_waker[self.1] = None;
	}
}

/// Ends when the program does.
struct WaitExit(usize, Shared);

impl Future for WaitExit {
	type Output = u32;
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
		let _o = outside();
		let w = &mut *lock(&self.1);
		match w.insts[self.0].exited {
			Some(s) => Poll::Ready(s),
			None => {
				w.insts[self.0].exit_waker = Some(cx.waker().clone());
				Poll::Pending
			}
		}
	}
}
impl Drop for WaitExit {
	fn drop(&mut self) {
		let _o = outside();
		let w = &mut *lock(&self.1);
		w.insts[self.0].gone[3] = true;
		w.insts[self.0].exit_waker = None;
	}
}

/// A user, for the server: the number of the connection.
pub struct SimUser(usize, Shared);

impl Drop for SimUser {
	fn drop(&mut self) {
		let _o = outside();
		lock(&self.1).nets[self.0].users[1] += 1;
	}
}

impl AsyncRead for POut {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
		let _o = outside();
		let w = &mut *lock(&self.2);
		let (i, s) = (self.0, self.1);
		if buf.is_empty() {
			return Poll::Ready(Ok(0));
		}
		if w.noise() {
			cx.waker().wake_by_ref();
			return Poll::Pending;
		}
		let avail = ((w.insts[i].avail[s] - w.insts[i].read[s]) as usize).min(buf.len());
		if avail == 0 {
			return match w.insts[i].ended[s] {
				Some(false) => Poll::Ready(Ok(0)),
				Some(true) => Poll::Ready(Err(w.broken(io::ErrorKind::Other))),
				None => {
					w.insts[i].out_waker[s] = Some(cx.waker().clone());
					Poll::Pending
				}
			};
		}
		let p = if w.noise { 300 } else { 0 };
		let n = w.portion(p, avail);
		let from = w.insts[i].read[s];
		buf[..n].copy_from_slice(&content(w.insts[i].owner(s), from as usize, n));
		w.insts[i].read[s] += n as u64;
		w.did(Src::Out(i, s));
		Poll::Ready(Ok(n))
	}
}

thread_local! {
	static RNG_NEXT: Cell<u64> = Cell::new(0);
	static RNG_USED: Cell<u64> = Cell::new(0);
}
/// The server's random generator: a real one, seeded from the case.
pub struct SimRng(ChaCha20Rng);
impl RngCore for SimRng {
	fn next_u32(&mut self) -> u32 {
		self.0.next_u32()
	}
	fn next_u64(&mut self) -> u64 {
		self.0.next_u64()
	}
	fn fill_bytes(&mut self, dest: &mut [u8]) {
		self.0.fill_bytes(dest)
	}
	fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
		self.0.try_fill_bytes(dest)
	}
}
impl CryptoRng for SimRng {}
impl SeedableRng for SimRng {
	type Seed = [u8; 32];
	fn from_seed(seed: [u8; 32]) -> Self {
		Self(ChaCha20Rng::from_seed(seed))
	}
	fn from_entropy() -> Self {
		let n = RNG_NEXT.with(|r| {
			r.set(r.get().wrapping_add(1));
			r.get()
		});
		Self(ChaCha20Rng::seed_from_u64(mix(n)))
	}
}

pub struct Handlers(pub Shared);

async fn yields(w: &Shared) {
	let mut n = {
		let _o = outside();
		let mut w = lock(w);
		let y = usize::from(w.yields);
		w.tape.below(y + 1)
	};
	poll_fn(|cx| {
		if n == 0 {
			Poll::Ready(())
		} else {
			let _o = outside();
			n -= 1;
			lock(w).handler_wakers.push(cx.waker().clone());
			Poll::Pending
		}
	})
	.await
}

fn owner_of(w: &World, user: &[u8]) -> usize {
	match w.nets.len() {
		1 => 0,
		n => user.first().map_or(0, |b| usize::from(*b)) % n,
	}
}

#[async_trait]
impl ServerHandlers for Handlers {
	type Sign = p256::NistP256;
	type Crypt = ChaCha20Poly1305;
	type Read = Rd;
	type Write = Wr;
	type User = SimUser;
	type Stdin = PStdin;
	type Stdout = POut;
	type Stderr = POut;
	type Rng = SimRng;

	async fn accept(&self) -> (Rd, Wr) {
		let i = poll_fn(|cx| {
			let _o = outside();
			let mut w = lock(&self.0);
			match w.accept_queue.pop_front() {
				Some(i) => {
					w.did(Src::Accept);
					Poll::Ready(i)
				}
				None => {
					w.accept_waker = Some(cx.waker().clone());
					Poll::Pending
				}
			}
		})
		.await;
		let _o = outside();
		lock(&self.0).log(Ev::Accept(i));
		(Rd(i, self.0.clone()), Wr(i, self.0.clone()))
	}

	async fn public_key_exists<'a>(
		&self,
		user: &'a [u8],
		service: &'a [u8],
		algorithm: &'a [u8],
		key: &'a [u8],
	) -> Result<(), ()> {
		yields(&self.0).await;
		let _o = outside();
		let call = AuthCall::Exists { algorithm: algorithm.into(), key: key.into() };
		decide(&mut lock(&self.0), user, service, call, false).map(|_| ())
	}

	async fn authenticate<'a>(&self, user: &'a [u8], service: &'a [u8], auth: Auth<'a>) -> Result<SimUser, ()> {
		yields(&self.0).await;
		let _o = outside();
		let (call, valid) = match auth {
			Auth::None => (AuthCall::None, false),
			Auth::Password(p) => (AuthCall::Password(p.into()), false),
			Auth::PublicKey { algorithm, key, signature, message } => {
				use ed25519_dalek::Verifier;
				let valid = algorithm == b"ssh-ed25519"
					&& ed25519_dalek::PublicKey::from_bytes(key)
						.ok()
						.zip(ed25519_dalek::Signature::from_bytes(signature).ok())
						.map_or(false, |(k, s)| k.verify(message, &s).is_ok());
				(
					AuthCall::PublicKey {
						algorithm: algorithm.into(),
						key: key.into(),
						signature: signature.into(),
						message: message.into(),
					},
					valid,
				)
			}
		};
		let r = decide(&mut lock(&self.0), user, service, call, valid);
		r.map(|c| {
			lock(&self.0).nets[c].users[0] += 1;
			SimUser(c, self.0.clone())
		})
	}

	async fn spawn<'a>(
		&self,
		user: &'a mut SimUser,
		ty: SpawnType<'a>,
		_data: &'a [u8],
	) -> Result<IoSet<PStdin, POut, POut>, ()> {
		yields(&self.0).await;
		let _o = outside();
		let conn = user.0;
		let mut w = lock(&self.0);
		let (shell, command) = match ty {
			SpawnType::Shell => (true, vec![]),
			SpawnType::Exec { command } => (false, command.to_vec()),
		};
		let n = w.spawns[conn];
		w.spawns[conn] += 1;
		let prog = if shell {
			(!w.progs[conn].is_empty()).then(|| 0)
		} else {
			(0..w.progs[conn].len()).find(|i| command_of(&w.progs[conn], *i) == command)
		};
		let spec = prog.map(|p| w.progs[conn][p].clone()).filter(|s| !s.refuse);
		let inst = spec.as_ref().map(|_| w.insts.len());
		w.log(Ev::Spawn { conn, shell, command, inst });
		let (spec, prog) = match (spec, prog) {
			(Some(s), Some(p)) => (s, p),
			_ => return Err(()),
		};
		let i = w.insts.len();
		w.insts.push(Inst {
			conn,
			prog,
			id: ((conn as u64) << 20) + n as u64,
			fill: spec.command.iter().fold(0, |h, b| mix(h ^ u64::from(*b))),
			pc: 0,
			avail: [0; 2],
			read: [0; 2],
			ended: [(!spec.stdout).then(|| false), (!spec.stderr).then(|| false)],
			out_waker: [None, None],
			exited: None,
			exit_waker: None,
			cap: spec.accept.map(u64::from),
			broken: false,
			input: vec![],
			in_waker: None,
			ibuf: VecDeque::new(),
			gone: [!spec.stdout, !spec.stderr, !spec.stdin, false],
			hungry: [0; 2],
			max_hungry: 0,
			stdin_closed: None,
			refused: false,
		});
		let sh = &self.0;
		let wait = Box::pin(WaitExit(i, sh.clone()));
		Ok(IoSet {
			stdin: spec.stdin.then(|| PStdin(i, sh.clone())),
			stdout: spec.stdout.then(|| POut(i, 0, sh.clone())),
			stderr: spec.stderr.then(|| POut(i, 1, sh.clone())),
			wait,
		})
	}
}

/// The command of a program, made unique by its number.
pub fn command_of(progs: &[ProgSpec], i: usize) -> Vec<u8> {
	let mut c = progs[i].command.to_vec();
	// The first one may be anything, even empty.
	if i > 0 {
		c.push(b'#');
		c.push(i as u8);
		// The first one may happen to be the same.
		while progs[0].command[..] == c[..] {
			c.push(b'#');
		}
	}
	c
}

fn decide(w: &mut World, user: &[u8], service: &[u8], call: AuthCall, valid: bool) -> Result<usize, ()> {
	let (conn, accepted) = match w.decide.clone() {
		Decide::Everyone => match std::str::from_utf8(user)
			.ok()
			.and_then(|s| s.strip_prefix("conn-"))
			.and_then(|s| s.parse::<usize>().ok())
		{
			Some(n) if n < w.nets.len() => (n, true),
			_ => (0, false),
		},
		Decide::Script(s) => {
			let c = owner_of(w, user);
			let k = w.calls[c];
			w.calls[c] += 1;
			(c, s[c].get(k).map_or(false, |d| d.unwrap_or(valid)))
		}
	};
	w.log(Ev::Auth { user: user.into(), service: service.into(), call, accepted });
	if accepted {
		Ok(conn)
	} else {
		Err(())
	}
}

// ------------------------------------------------------------------ executor

struct Flag(AtomicBool);
impl ArcWake for Flag {
	fn wake_by_ref(a: &Arc<Self>) {
		a.0.store(true, Ordering::Relaxed)
	}
}

/// Something that talks to the server over a connection.
pub trait Actor {
	/// The next step can be done now.
	fn enabled(&self, net: &ConnNet) -> bool;
	/// Waits until nothing else happens.
	fn settling(&self) -> bool;
	fn settled(&mut self);
	fn step(&mut self, now: u64);
	fn on_bytes(&mut self, b: &[u8], now: u64);
	/// Bytes for the server.
	fn out(&mut self) -> &mut Vec<u8>;
	fn pending_out(&self) -> usize;
	/// Finished with sending (half-close), or reset.
	fn closing(&self) -> (bool, bool);
	/// Does not read
	fn deaf(&self) -> bool;
	/// When it connects: after so many connections have been established (or ended)
	fn connect_after(&self) -> usize;
	fn is_established(&self) -> bool;
}

pub struct Sim<A: Actor> {
	pub world: Shared,
	pub actors: Vec<A>,
	connected: Vec<bool>,
	flag: Arc<Flag>,
	server: Option<Pin<Box<dyn Future<Output = ()>>>>,
	sched: Sched,
	prio: Vec<u64>,
	pub panic: Option<String>,
	pub steps: u64,
	pub polls: u64,
	/// It never came to rest
	pub overrun: bool,
	limit: u64,
	/// The server kept waking itself without doing anything.
	pub spun: bool,
	pub meter: Meter,
}

pub const SERVER_IDENT: &str = "SSH-2.0-nora_sim some comment";

pub fn host_key(n: u64) -> p256::ecdsa::SigningKey {
	let mut i = 0;
	loop {
		if let Ok(k) = p256::ecdsa::SigningKey::from_bytes(&content(mix(n) ^ i, 0, 32)) {
			return k;
		}
		i += 1;
	}
}

pub fn expect(n: u64, ident: &[u8]) -> Expect {
	Expect {
		ident: ident.to_vec(),
		host_point: host_key(n).verifying_key().to_encoded_point(false).as_bytes().to_vec(),
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
	Poll,
	Connect(usize),
	Deliver(usize),
	Drain(usize),
	Step(usize),
	Prog(usize),
	Handler,
	Spurious,
}

/// Connects when nothing happens anymore.
pub const LAST: usize = 255;

impl<A: Actor> Sim<A> {
	pub fn new(
		sched: Sched,
		ident: &'static [u8],
		key: u64,
		decide: Decide,
		actors: Vec<A>,
		nets: Vec<NetCfg>,
		progs: Vec<Vec<ProgSpec>>,
	) -> Self {
		let n = actors.len();
		assert!(n == nets.len() && n == progs.len());
		RNG_NEXT.with(|r| r.set(mix(sched.rng)));
		futures_util::vp_set_seed(mix(sched.select) | 1);
		// One byte of output in a packet of its own, passed on byte by byte, may
		// take more than a hundred steps.
		let output: u64 = progs
			.iter()
			.flatten()
			.flat_map(|p| &p.script)
			.map(|e| if let PEv::Out(_, n) = e { u64::from(*n) } else { 0 })
			.sum();
		let world = Arc::new(Mutex::new(World {
			now: 0,
			tape: Tape::new(&sched.tape),
			noise: sched.noise && !sched.tape.is_empty(),
			kind: (sched.rng >> 8) as u8,
			noise_left: 2000,
			yields: sched.handler_yields,
			nets: nets.into_iter().map(|c| ConnNet { cfg: Some(c), ..Default::default() }).collect(),
			accept_queue: VecDeque::new(),
			accept_waker: None,
			log: vec![],
			insts: vec![],
			progs,
			decide,
			calls: vec![0; n],
			spawns: vec![0; n],
			handler_wakers: vec![],
			misuse: None,
			io_ops: 0,
			accept_hungry: 0,
			max_accept_hungry: 0,
		}));
		let meter = Meter::new();
		let (key, handlers) = (host_key(key), Handlers(world.clone()));
		let scope = meter.enter();
		let server = Server::new(Identifier::new(ident).expect("identifier"), key, handlers);
		let server: Pin<Box<dyn Future<Output = ()>>> = Box::pin(async move {
			server.start().await;
		});
		drop(scope);
		let prio = (0..64).map(|i| mix(i ^ mix(sched.select ^ 77))).collect();
		Self {
			world,
			actors,
			connected: vec![false; n],
			flag: Arc::new(Flag(AtomicBool::new(true))),
			server: Some(server),
			sched,
			prio,
			panic: None,
			steps: 0,
			polls: 0,
			overrun: false,
			limit: 20_000_000 + output * 1000,
			spun: false,
			meter,
		}
	}

	fn poll_server(&mut self) {
		let fut = match self.server.as_mut() {
			Some(f) => f,
			None => return,
		};
		self.polls += 1;
		self.flag.0.store(false, Ordering::Relaxed);
		let wk = waker(self.flag.clone());
		let mut cx = Context::from_waker(&wk);
		let meter = self.meter;
		let polled = crate::runner::no_panic(|| {
			let _s = meter.enter();
			fut.as_mut().poll(&mut cx)
		});
		match polled {
			Ok(Poll::Pending) => {}
			Ok(Poll::Ready(())) => {
				self.panic = Some("the server returned".into());
				self.server = None;
			}
			Err(m) => {
				self.panic = Some(m);
				// Its destructors may panic, too.
				let f = self.server.take();
				let _ = crate::runner::no_panic(|| drop(f));
			}
		}
	}

	/// Something observable by anyone outside the server.
	fn digest(&self) -> (u64, u64, usize, u64) {
		let w = lock(&self.world);
		(
			w.now + w.io_ops,
			u64::from(w.noise_left),
			w.nets.iter().map(|n| n.outbox.len()).sum(),
			w.nets.iter().map(|n| n.server_read).sum::<u64>()
				+ w.insts.iter().map(|i| i.read[0] + i.read[1] + i.input.len() as u64).sum::<u64>(),
		)
	}

	fn prog_enabled(w: &World, i: usize) -> bool {
		let inst = &w.insts[i];
		match w.progs[inst.conn][inst.prog].script.get(inst.pc) {
			None => false,
			Some(PEv::WaitIn(n)) => inst.input.len() as u64 >= u64::from(*n) || inst.stdin_closed.is_some(),
			Some(PEv::WaitInClosed) => {
				inst.stdin_closed.is_some() || !w.progs[inst.conn][inst.prog].stdin
			}
			Some(_) => true,
		}
	}

	fn prog_step(w: &mut World, i: usize) {
		let (c, p) = (w.insts[i].conn, w.insts[i].prog);
		let inst = &mut w.insts[i];
		let ev = w.progs[c][p].script[inst.pc].clone();
		inst.pc += 1;
		match ev {
			PEv::Out(s, n) => {
				let s = usize::from(s);
				if inst.ended[s].is_none() {
					inst.avail[s] += u64::from(n);
					if n > 0 {
						wake(&mut inst.out_waker[s]);
					}
				}
			}
			PEv::End(s, e) => {
				let s = usize::from(s);
				if inst.ended[s].is_none() {
					inst.ended[s] = Some(e);
					wake(&mut inst.out_waker[s]);
				}
			}
			PEv::Exit(s) => {
				if inst.exited.is_none() {
					inst.exited = Some(s);
					wake(&mut inst.exit_waker);
				}
			}
			PEv::Accept(n) => {
				if let Some(c) = &mut inst.cap {
					*c += u64::from(n);
				}
				wake(&mut inst.in_waker);
			}
			PEv::AcceptAll => {
				inst.cap = None;
				wake(&mut inst.in_waker);
			}
			PEv::BreakIn => {
				inst.broken = true;
				wake(&mut inst.in_waker);
			}
			PEv::WaitIn(_) | PEv::WaitInClosed => {}
		}
		w.tick();
	}

	fn enabled(&self) -> Vec<Act> {
		let w = lock(&self.world);
		let mut v = vec![];
		if self.server.is_some() && self.flag.0.load(Ordering::Relaxed) {
			v.push(Act::Poll);
		}
		let done = self
			.actors
			.iter()
			.zip(&w.nets)
			.filter(|(a, n)| a.is_established() || n.wr_dropped.is_some())
			.count();
		for (i, a) in self.actors.iter().enumerate() {
			if !self.connected[i] {
				if done >= a.connect_after() {
					v.push(Act::Connect(i));
				}
				continue;
			}
			let n = &w.nets[i];
			if !n.outbox.is_empty() && !a.deaf() {
				v.push(Act::Drain(i));
			}
		}
		for (i, a) in self.actors.iter().enumerate() {
			if !self.connected[i] {
				continue;
			}
			let n = &w.nets[i];
			if n.wr_dropped.is_some() && n.outbox.is_empty() {
				continue;
			}
			// A closed transport takes nothing anymore.
			let (eof, reset) = a.closing();
			if n.wr_dropped.is_none()
				&& (a.pending_out() > 0 || (eof && !n.eof) || (reset && !n.reset))
				&& !n.reset
			{
				v.push(Act::Deliver(i));
			}
			if a.enabled(n) {
				v.push(Act::Step(i));
			}
		}
		for i in 0..w.insts.len() {
			if Self::prog_enabled(&w, i) {
				v.push(Act::Prog(i));
			}
		}
		if !w.handler_wakers.is_empty() {
			v.push(Act::Handler);
		}
		v
	}

	fn rank(&self, a: Act) -> u64 {
		let i = match a {
			Act::Poll => 0,
			Act::Handler => 1,
			Act::Spurious => 2,
			Act::Connect(i) => 3 + i * 4,
			Act::Deliver(i) => 4 + i * 4,
			Act::Drain(i) => 5 + i * 4,
			Act::Step(i) => 6 + i * 4,
			Act::Prog(i) => 24 + i,
		};
		self.prio[i % 64]
	}

	/// Run until nothing can happen anymore.
	pub fn run(&mut self) {
		let mut idle = 0;
		let mut streak = 0;
		let mut last = (0, 0, 0, 0);
		while self.steps < self.limit {
			let mut v = self.enabled();
			if v.is_empty() || v == [Act::Poll] {
				if v == [Act::Poll] {
					// A server which only keeps waking itself is doing nothing.
					let before = self.digest();
					self.poll_server();
					self.steps += 1;
					idle = if self.digest() == before { idle + 1 } else { 0 };
					if idle < 300 {
						continue;
					}
					self.spun = true;
				}
				idle = 0;
				// Quiet: let somebody who waits for that go on.
				let waiting: Vec<usize> = (0..self.actors.len())
					.filter(|i| self.connected[*i] && self.actors[*i].settling())
					.collect();
				if waiting.is_empty() {
					// Those who come last
					match (0..self.actors.len()).find(|i| !self.connected[*i] && self.actors[*i].connect_after() >= LAST) {
						Some(i) => self.act(Act::Connect(i)),
						None => return,
					}
					continue;
				}
				let k = lock(&self.world).tape.below(waiting.len());
				self.actors[waiting[k]].settled();
				self.steps += 1;
				continue;
			}
			idle = 0;
			self.steps += 1;
			if self.sched.noise && self.steps % 5 == 0 {
				v.push(Act::Spurious);
			}
			let mut act = match self.sched.mode {
				0 => v[0],
				3 => {
					let others = v.len() - usize::from(v[0] == Act::Poll);
					let k = lock(&self.world).tape.below(others);
					v[v.len() - others + k]
				}
				1 => {
					let k = lock(&self.world).tape.below(v.len());
					v[k]
				}
				_ => {
					let c = lock(&self.world).tape.next();
					if c < 12 {
						// change point
						let k = lock(&self.world).tape.below(64);
						self.prio[k] = mix(self.prio[k] ^ self.steps);
					}
					*v.iter().max_by_key(|a| self.rank(**a)).unwrap()
				}
			};
			if act == Act::Poll {
				let d = self.digest();
				streak = if d == last { streak + 1 } else { 0 };
				last = d;
				if streak > 300 && v.len() > 1 {
					// It only keeps waking itself: others may go on.
					let k = lock(&self.world).tape.below(v.len() - 1);
					act = v[1 + k];
				}
			}
			self.act(act);
		}
		self.overrun = true;
	}

	fn act(&mut self, a: Act) {
		match a {
			Act::Poll | Act::Spurious => self.poll_server(),
			Act::Connect(i) => {
				self.connected[i] = true;
				let mut w = lock(&self.world);
				w.accept_queue.push_back(i);
				wake(&mut w.accept_waker);
			}
			Act::Deliver(i) => {
				let mut w = lock(&self.world);
				let out = self.actors[i].out();
				let p = w.nets[i].cfg.as_ref().map_or(0, |c| c.deliver);
				let k = w.portion(p, out.len());
				w.nets[i].inbox.extend(out.drain(..k));
				if out.is_empty() {
					let (eof, reset) = self.actors[i].closing();
					w.nets[i].eof |= eof;
					w.nets[i].reset |= reset;
					if reset {
						wake(&mut w.nets[i].wr_waker);
					}
				}
				wake(&mut w.nets[i].rd_waker);
			}
			Act::Drain(i) => {
				let (b, now) = {
					let mut w = lock(&self.world);
					let p = w.nets[i].cfg.as_ref().map_or(0, |c| c.drain);
					let l = w.nets[i].outbox.len();
					let k = w.portion(p, l);
					let b: Vec<u8> = w.nets[i].outbox.drain(..k).collect();
					wake(&mut w.nets[i].wr_waker);
					(b, w.tick())
				};
				self.actors[i].on_bytes(&b, now);
			}
			Act::Step(i) => {
				let now = lock(&self.world).tick();
				self.actors[i].step(now);
			}
			Act::Prog(i) => Self::prog_step(&mut lock(&self.world), i),
			Act::Handler => {
				let ws = std::mem::take(&mut lock(&self.world).handler_wakers);
				ws.into_iter().for_each(Waker::wake);
			}
		}
	}

	/// End of the story: drop the server (and everything it holds).
	pub fn finish(&mut self) {
		let f = self.server.take();
		if let Err(m) = crate::runner::no_panic(|| drop(f)) {
			self.panic.get_or_insert(m);
		}
		let w = &mut *lock(&self.world);
		w.accept_waker = None;
		w.handler_wakers.clear();
	}

	pub fn w(&self) -> MutexGuard<'_, World> {
		lock(&self.world)
	}
	pub fn is_connected(&self, i: usize) -> bool {
		self.connected[i]
	}
}
