//! C28, C29: the example daemon, as a process, over TCP.
use crate::{auth, hostile, proc::*, rmsg::*, runner::*, sclient::*, sim::*, tclient::*, util::*};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
	fs,
	io::{Read, Write},
	net::{Shutdown, TcpStream},
	os::unix::{fs::PermissionsExt, io::AsRawFd, process::CommandExt},
	path::PathBuf,
	process::{Child, Stdio},
	sync::{atomic::Ordering, Mutex, OnceLock},
	time::{Duration, Instant},
};

const ADDR: &str = "127.0.0.1:2222";
/// Without a sign of life for this long, a local connection hangs.
const STALL: Duration = Duration::from_secs(45);

// ------------------------------------------------------------------ the daemon

/// How the daemon is started.
#[derive(Clone, Debug, PartialEq, Hash, Serialize, Deserialize)]
pub struct Config {
	/// SHELL: 0: the helper, 1: not set, 2: missing, 3: not executable, 4: a directory
	pub shell: u8,
	/// Limit of open files
	pub files: Option<u16>,
}

struct Daemon {
	child: Child,
	config: Config,
	log: PathBuf,
}

static CURRENT: Mutex<Option<Daemon>> = Mutex::new(None);

/// The helper program that commands run: `bin/h` in the scratch directory.
fn helper() -> &'static PathBuf {
	static P: OnceLock<PathBuf> = OnceLock::new();
	P.get_or_init(|| {
		let bin = scratch().join("bin");
		fs::create_dir(&bin).expect("bin");
		fs::set_permissions(&bin, fs::Permissions::from_mode(0o755)).expect("permissions");
		let h = bin.join("h");
		fs::copy(std::env::current_exe().expect("own path"), &h).expect("helper");
		fs::set_permissions(&h, fs::Permissions::from_mode(0o755)).expect("permissions");
		fs::write(bin.join("plain"), b"not a program").expect("file");
		fs::set_permissions(bin.join("plain"), fs::Permissions::from_mode(0o644)).expect("permissions");
		fs::write(bin.join("garbage"), b"\x7fELFnot a program").expect("file");
		fs::set_permissions(bin.join("garbage"), fs::Permissions::from_mode(0o755)).expect("permissions");
		fs::create_dir(bin.join("dir")).expect("dir");
		h
	})
}

/// The end of what the daemon wrote to standard error.
fn log_tail(d: &Daemon) -> String {
	let b = fs::read(&d.log).unwrap_or_default();
	String::from_utf8_lossy(&b[b.len().saturating_sub(600)..]).into_owned()
}

fn start(config: &Config) -> Result<Daemon, String> {
	let h = helper();
	let home = scratch().join("home");
	if !home.exists() {
		fs::create_dir(&home).expect("home");
		if is_root() {
			std::os::unix::fs::chown(&home, Some(NOBODY), Some(NOBODY)).expect("chown");
		}
	}
	let bin = h.parent().expect("bin");
	for n in 0..600 {
		let log = scratch().join(format!("log-{}", n % 2));
		let mut c = command(program(), &home);
		c.env("PATH", bin);
		match config.shell {
			0 => drop(c.env("SHELL", h)),
			1 => {}
			2 => drop(c.env("SHELL", bin.join("missing"))),
			3 => drop(c.env("SHELL", bin.join("plain"))),
			_ => drop(c.env("SHELL", bin.join("dir"))),
		}
		c.process_group(0);
		if let Some(n) = config.files {
			unsafe {
				c.pre_exec(move || {
					let l = libc::rlimit { rlim_cur: n.into(), rlim_max: n.into() };
					libc::setrlimit(libc::RLIMIT_NOFILE, &l);
					Ok(())
				});
			}
		}
		let mut child = c
			.stdin(Stdio::null())
			.stdout(Stdio::null())
			.stderr(fs::File::create(&log).expect("log"))
			.spawn()
			.map_err(|e| format!("{}: cannot start the daemon: {}", HARNESS_ERROR, e))?;
		DAEMON.store(child.id() as i32, Ordering::SeqCst);
		let begin = Instant::now();
		loop {
			if let Ok(Some(_)) = child.try_wait() {
				break;
			}
			if TcpStream::connect(ADDR).is_ok() {
				// It may be somebody else's port.
				std::thread::sleep(Duration::from_millis(5));
				if let Ok(None) = child.try_wait() {
					return Ok(Daemon { child, config: config.clone(), log });
				}
			}
			if begin.elapsed() > Duration::from_secs(30) {
				kill_daemon();
				let _ = child.wait();
				return Err(format!("{}: the daemon does not listen", HARNESS_ERROR));
			}
			std::thread::sleep(Duration::from_millis(2));
		}
		std::thread::sleep(Duration::from_millis(100));
	}
	Err(format!("{}: the daemon cannot be started; is port 2222 in use?", HARNESS_ERROR))
}

fn stop(mut d: Daemon) {
	kill_daemon();
	let _ = d.child.wait();
}

/// A running daemon with this configuration.
fn ensure_daemon(config: &Config) -> Result<(), String> {
	let mut cur = CURRENT.lock().unwrap();
	if let Some(d) = cur.as_mut() {
		if d.config == *config && matches!(d.child.try_wait(), Ok(None)) {
			return Ok(());
		}
	}
	if let Some(d) = cur.take() {
		stop(d);
	}
	*cur = Some(start(config)?);
	Ok(())
}

fn still_running() -> Result<(), String> {
	let mut cur = CURRENT.lock().unwrap();
	let d = cur.as_mut().expect("daemon");
	match d.child.try_wait() {
		Ok(None) => Ok(()),
		s => Err(format!("the daemon has ended ({:?}): {}", s, log_tail(d))),
	}
}

/// Without clients, the daemon uses no processor time and has no dead children.
fn at_rest() -> Result<(), String> {
	let pid = CURRENT.lock().unwrap().as_ref().expect("daemon").child.id();
	let ran = || -> Option<u64> {
		// Every thread has its own
		let mut n = 0;
		for t in fs::read_dir(format!("/proc/{}/task", pid)).ok()? {
			let s = fs::read_to_string(t.ok()?.path().join("schedstat")).ok()?;
			n += s.split(' ').next()?.parse::<u64>().ok()?;
		}
		Some(n)
	};
	let dead = || -> usize {
		let stat = |p: &std::path::Path| {
			let s = fs::read_to_string(p.join("stat")).ok()?;
			let mut f = s[s.rfind(')')? + 1..].split_ascii_whitespace();
			Some(f.next()? == "Z" && f.next()?.parse() == Ok(pid))
		};
		let numbers = |e: &fs::DirEntry| e.file_name().to_string_lossy().bytes().all(|b| b.is_ascii_digit());
		fs::read_dir("/proc").map_or(0, |d| d.flatten().filter(numbers).filter(|e| stat(&e.path()) == Some(true)).count())
	};
	let begin = Instant::now();
	let mut busy = 1;
	let mut zombies = 1;
	while begin.elapsed() < Duration::from_secs(20) {
		if zombies > 0 {
			zombies = dead();
		}
		if busy > 0 {
			let (t, a) = (Instant::now(), ran());
			std::thread::sleep(Duration::from_millis(15));
			let (Some(a), Some(b)) = (a, ran()) else { return Ok(()) };
			busy = if b.saturating_sub(a) * 4 < t.elapsed().as_nanos() as u64 { 0 } else { 1 };
		} else {
			std::thread::sleep(Duration::from_millis(3));
		}
		if busy + zombies == 0 {
			return Ok(());
		}
	}
	ensure!(zombies == 0, "{} ended programs are still there as processes", zombies);
	Err("the daemon keeps working although it has no clients".into())
}

fn restart_later() {
	if let Some(d) = CURRENT.lock().unwrap().take() {
		stop(d);
	}
}

// ------------------------------------------------------------------ a client over TCP

struct Conn {
	cl: Client,
	/// The server ended the connection.
	ended: bool,
	stalled: bool,
}

/// Run a client's script. A careful one reads until its script is finished; others just leave.
fn talk(mut cl: Client, delay: u64, careful: bool) -> Conn {
	std::thread::sleep(Duration::from_millis(delay));
	let mut net = ConnNet::default();
	let mut out = Conn { cl: Client::new(0, ClientCfg { hs: HsCfg::plain(0), ops: vec![], after: 0, auto_close: true, fill: 0 }, vec![], any_server()), ended: false, stalled: false };
	let mut s = None;
	let begin = Instant::now();
	while s.is_none() && begin.elapsed() < STALL {
		s = TcpStream::connect(ADDR).ok();
		if s.is_none() {
			if still_running().is_err() {
				break;
			}
			std::thread::sleep(Duration::from_millis(5));
		}
	}
	let Some(mut s) = s else {
		out.cl = cl;
		out.stalled = still_running().is_ok();
		return out;
	};
	s.set_nonblocking(true).expect("nonblocking");
	let _ = s.set_nodelay(true);
	let mut last = Instant::now();
	let mut shut = false;
	let mut now = 0;
	let mut lingering = None;
	loop {
		now += 1;
		while cl.enabled(&net) && cl.pending_out() < 1 << 18 {
			cl.step(now);
			last = Instant::now();
		}
		if cl.settling() {
			std::thread::sleep(Duration::from_millis(3));
			cl.settled();
			continue;
		}
		let (eof, reset) = cl.closing();
		if reset && cl.pending_out() == 0 {
			let l = libc::linger { l_onoff: 1, l_linger: 0 };
			unsafe {
				libc::setsockopt(
					s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER,
					&l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32,
				)
			};
			break;
		}
		if eof && !shut && cl.pending_out() == 0 {
			shut = true;
			let _ = s.shutdown(Shutdown::Write);
		}
		if net.wr_dropped.is_some() {
			break;
		}
		if cl.finished() && cl.pending_out() == 0 {
			if careful {
				break;
			}
			// Listen a little longer, so that the server gets to see everything.
			let l = *lingering.get_or_insert_with(Instant::now);
			if l.elapsed() > Duration::from_millis(if shut { 40 } else { 5 }) {
				break;
			}
		}
		if cl.t.err.is_some() {
			break;
		}
		// Somebody who does not go on by himself is not waited for.
		let limit = if careful { STALL } else { Duration::from_millis(40) };
		if last.elapsed() > limit {
			out.stalled = true;
			break;
		}
		let deaf = cl.deaf();
		let mut fd = libc::pollfd {
			fd: s.as_raw_fd(),
			events: if deaf { 0 } else { libc::POLLIN } | if cl.pending_out() > 0 { libc::POLLOUT } else { 0 },
			revents: 0,
		};
		unsafe {
			// Without this the daemon's second small packet waits for 40 ms.
			let on: libc::c_int = 1;
			libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &on as *const _ as *const libc::c_void, 4);
			libc::poll(&mut fd, 1, if careful { 1000 } else { 5 })
		};
		if fd.revents & (libc::POLLOUT | libc::POLLERR | libc::POLLHUP) != 0 && cl.pending_out() > 0 {
			match s.write(cl.out()) {
				Ok(n) => {
					cl.out().drain(..n);
					last = Instant::now();
				}
				Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
				Err(_) => {
					cl.out().clear();
					net.wr_dropped = Some(now);
				}
			}
		}
		if fd.revents & (libc::POLLIN | libc::POLLHUP | libc::POLLERR) != 0 && !deaf {
			let mut buf = vec![0; 1 << 16];
			match s.read(&mut buf) {
				Ok(0) => net.wr_dropped = Some(now),
				Ok(n) => {
					cl.on_bytes(&buf[..n], now);
					last = Instant::now();
				}
				Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
				Err(_) => net.wr_dropped = Some(now),
			}
		} else if deaf && fd.revents & (libc::POLLHUP | libc::POLLERR) != 0 {
			net.wr_dropped = Some(now);
		}
	}
	out.ended = net.wr_dropped.is_some();
	out.cl = cl;
	out
}

fn any_server() -> Expect {
	Expect { ident: vec![], host_point: vec![] }
}

// ------------------------------------------------------------------ commands

#[derive(Clone, Debug, Hash, PartialEq, Serialize, Deserialize)]
pub enum Tok {
	/// Write so many bytes to stdout (0) or stderr (1), from a seed, in one or many portions
	Out(u8, u16, u32, bool),
	/// Copy the input to the output until its end
	Cat,
	/// Copy so many bytes of the input to stderr
	Head(u32),
	/// Write the arguments
	Args,
	Sleep(u8),
	/// Close a stream
	Close(u8),
	/// Leave a process behind that writes to stdout later
	Later(u16, u16, u8),
	/// Ignored by the helper
	Arg(Hex),
	Exit(u8),
	/// Die of a signal
	Kill(u8),
}

const SIGNALS: [i32; 6] = [libc::SIGKILL, libc::SIGTERM, libc::SIGABRT, libc::SIGUSR1, libc::SIGPIPE, libc::SIGHUP];

impl Tok {
	fn text(&self) -> Vec<u8> {
		match self {
			Tok::Out(s, seed, n, many) => format!("{}{}:{}{}", ["o", "e"][usize::from(*s % 2)], seed, n, if *many { ":m" } else { "" }),
			Tok::Cat => "c".into(),
			Tok::Head(n) => format!("r{}", n),
			Tok::Args => "a".into(),
			Tok::Sleep(n) => format!("s{}", n),
			Tok::Close(n) => format!("q{}", n % 3),
			Tok::Later(seed, n, ms) => format!("f{}:{}:{}", seed, n, ms),
			Tok::Arg(b) => return [b"_", &b[..]].concat(),
			Tok::Exit(n) => format!("x{}", n),
			Tok::Kill(n) => format!("k{}", SIGNALS[usize::from(*n) % SIGNALS.len()]),
		}
		.into_bytes()
	}
}

/// What the helper does, given everything that comes to its input (up to an end of it).
#[derive(Default, Debug)]
struct Effect {
	out: [Vec<u8>; 2],
	/// Exit status; None: killed
	status: Option<u32>,
	/// Whether it looks at its input
	reads: bool,
}

fn effect(toks: &[Tok], args: &[Vec<u8>], input: &[u8]) -> Effect {
	let mut e = Effect { status: Some(0), ..Default::default() };
	let mut closed = [false; 3];
	let mut pos = 0;
	let mut later: Vec<u8> = vec![];
	for t in toks {
		let mut put = |s: usize, b: &[u8]| -> bool {
			if closed[s + 1] {
				return false;
			}
			e.out[s].extend_from_slice(b);
			true
		};
		let ok = match t {
			Tok::Out(s, seed, n, _) => put(usize::from(*s % 2), &content(u64::from(*seed), 0, *n as usize)) || *n == 0,
			Tok::Cat => {
				e.reads = true;
				if closed[0] {
					true
				} else {
					let b = input[pos..].to_vec();
					pos = input.len();
					put(0, &b) || b.is_empty()
				}
			}
			Tok::Head(n) => {
				e.reads = true;
				if closed[0] {
					true
				} else {
					let end = (pos + *n as usize).min(input.len());
					let b = input[pos..end].to_vec();
					pos = end;
					put(1, &b) || b.is_empty()
				}
			}
			Tok::Args => {
				let mut b = vec![];
				for a in args {
					b.extend((a.len() as u32).to_be_bytes());
					b.extend_from_slice(a);
				}
				put(0, &b)
			}
			Tok::Close(n) => {
				closed[usize::from(*n % 3)] = true;
				true
			}
			Tok::Later(seed, n, _) => {
				if !closed[1] {
					later = content(u64::from(*seed), 0, usize::from(*n));
				}
				true
			}
			Tok::Exit(n) => {
				e.status = Some(u32::from(*n));
				break;
			}
			Tok::Kill(_) => {
				e.status = None;
				break;
			}
			Tok::Sleep(_) | Tok::Arg(_) => true,
		};
		if !ok {
			e.status = Some(77);
			break;
		}
	}
	e.out[0].extend(later);
	e
}

/// The helper itself. Called as a shell (without arguments) it copies input to output and exits with 7.
pub fn helper_main() -> ! {
	use std::os::unix::ffi::OsStrExt;
	let args: Vec<Vec<u8>> = std::env::args_os().skip(1).map(|a| a.as_bytes().to_vec()).collect();
	fn put(fd: i32, mut b: &[u8], max: usize) {
		while !b.is_empty() {
			let l = b.len().min(max);
			let n = unsafe { libc::write(fd, b.as_ptr().cast(), l) };
			if n <= 0 {
				std::process::exit(77);
			}
			b = &b[n as usize..];
		}
	}
	fn get(max: usize) -> Vec<u8> {
		let mut b = vec![0; max.min(1 << 16)];
		let n = unsafe { libc::read(0, b.as_mut_ptr().cast(), b.len()) };
		b.truncate(n.max(0) as usize);
		b
	}
	let nums = |a: &[u8]| -> Vec<u64> {
		a[1..]
			.split(|b| *b == b':')
			.map(|s| s.iter().take_while(|b| b.is_ascii_digit()).fold(0u64, |x, b| x.wrapping_mul(10).wrapping_add(u64::from(b - b'0'))))
			.collect()
	};
	if args.is_empty() {
		loop {
			let b = get(1 << 16);
			if b.is_empty() {
				std::process::exit(7);
			}
			put(1, &b, usize::MAX);
		}
	}
	for a in &args {
		let Some(k) = a.first() else { continue };
		let n = nums(a);
		let n = |i: usize| n.get(i).copied().unwrap_or(0);
		match k {
			b'o' | b'e' => {
				let fd = if *k == b'o' { 1 } else { 2 };
				let max = if a.ends_with(b":m") { 777 } else { usize::MAX };
				put(fd, &content(n(0), 0, (n(1) as usize).min(1 << 26)), max);
			}
			b'c' => loop {
				let b = get(1 << 16);
				if b.is_empty() {
					break;
				}
				put(1, &b, usize::MAX);
			},
			b'r' => {
				let mut left = n(0) as usize;
				while left > 0 {
					let b = get(left);
					if b.is_empty() {
						break;
					}
					left -= b.len();
					put(2, &b, usize::MAX);
				}
			}
			b'a' => {
				let mut v = vec![];
				for a in &args {
					v.extend((a.len() as u32).to_be_bytes());
					v.extend_from_slice(a);
				}
				put(1, &v, usize::MAX);
			}
			b's' => std::thread::sleep(Duration::from_millis(n(0).min(2000))),
			b'q' => {
				unsafe { libc::close((n(0) % 3) as i32) };
			}
			b'f' => {
				if unsafe { libc::fork() } == 0 {
					unsafe {
						libc::close(0);
						libc::close(2);
					}
					std::thread::sleep(Duration::from_millis(n(2).min(500)));
					put(1, &content(n(0), 0, n(1) as usize), usize::MAX);
					std::process::exit(0);
				}
			}
			b'x' => std::process::exit(n(0) as i32),
			b'k' => unsafe {
				libc::signal(n(0) as i32, libc::SIG_DFL);
				libc::raise(n(0) as i32);
			},
			_ => {}
		}
	}
	std::process::exit(0)
}

fn tok() -> BoxedStrategy<Tok> {
	let len = prop_oneof![
		4 => 0u32..200,
		2 => 0u32..5000,
		1 => prop_oneof![Just(32767u32), Just(32768), Just(32769), Just(65536), Just(65537), Just(70_000), Just(262_144)],
		1 => 0u32..600_000,
	];
	prop_oneof![
		8 => (0u8..2, any::<u16>(), len.clone(), any::<bool>()).prop_map(|(s, seed, n, many)| Tok::Out(s, seed, n, many && n < 50_000)),
		2 => Just(Tok::Cat),
		2 => len.prop_map(Tok::Head),
		1 => Just(Tok::Args),
		1 => (1u8..20).prop_map(Tok::Sleep),
		1 => (0u8..3).prop_map(Tok::Close),
		2 => vec(any::<u8>(), 0..12).prop_map(|b| Tok::Arg(Hex(b.into_iter().map(|b| if b == 0 || b.is_ascii_whitespace() { b'.' } else { b }).collect()))),
	]
	.boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DChan {
	pub shell: bool,
	pub toks: Vec<Tok>,
	/// How the command is written: program and white space
	pub style: Hex,
	/// Input, in messages
	pub input: Vec<u32>,
	pub eof: bool,
	pub window: u32,
	pub max: u32,
	pub want: bool,
}
impl DChan {
	fn args(&self) -> Vec<Vec<u8>> {
		self.toks.iter().map(|t| t.text()).collect()
	}
	fn command(&self) -> Vec<u8> {
		let mut style = Tape::new(&self.style);
		let mut gap = |least: usize, c: &mut Vec<u8>| {
			for _ in 0..style.below(3).max(least) {
				c.push(b" \t\n\r\x0c"[style.below(5)]);
			}
		};
		let mut c = vec![];
		gap(0, &mut c);
		if self.style.len() % 3 == 1 {
			c.extend(helper().as_os_str().to_str().expect("path").bytes());
		} else {
			c.push(b'h');
		}
		for a in self.args() {
			gap(1, &mut c);
			c.extend(a);
		}
		gap(0, &mut c);
		c
	}
	fn start(&self, ch: u8) -> Op {
		if self.shell {
			return Op::Req { ch, ty: hx("shell"), data: Hex(vec![]), want: self.want };
		}
		let mut d = vec![];
		put_str(&mut d, &self.command());
		Op::Req { ch, ty: hx("exec"), data: Hex(d), want: self.want }
	}
	fn open(&self, n: usize) -> Op {
		Op::Open { ty: hx("session"), cn: n as u32 * 7, window: self.window, max: self.max, auto: true }
	}
	/// The input has to be ended for the program to end.
	fn needs_end(&self) -> bool {
		self.shell || self.toks.is_empty() || effect(&self.toks, &[], &[]).reads
	}
	fn judge(&self, cl: &Client, k: usize) -> Result<(), String> {
		let c = &cl.chans[k];
		let at = |s: String| format!("channel {}: {}", k, s);
		ensure!(c.state == ChState::Open, "{}", at(format!("{:?}", c.state)));
		if let Some((_, w)) = c.wrong.first() {
			return Err(at(w.clone()));
		}
		let sent: u64 = c.sent.iter().map(|s| if let Sent::Data(n) = s.1 { n } else { 0 }).sum();
		let input = content(cl.owner(k), 0, sent as usize);
		let e = if self.shell || self.toks.is_empty() {
			Effect { out: [input, vec![]], status: Some(7), reads: true }
		} else {
			effect(&self.toks, &self.args(), &input)
		};
		for s in 0..2 {
			let got = c.out(s);
			ensure!(got == e.out[s], "{}", at(format!("{}: {}", ["stdout", "stderr"][s], diff(&got, &e.out[s]))));
		}
		let mut replies = 0;
		let (mut exit, mut eof, mut close) = (vec![], 0, 0);
		for (_, r) in &c.rcvd {
			match r {
				Rcv::Success => replies += 1,
				Rcv::Failure => return Err(at("the request failed".into())),
				Rcv::Exit(n) => exit.push(*n),
				Rcv::Eof => eof += 1,
				Rcv::Close => close += 1,
				Rcv::Data(_) | Rcv::Ext(1, _) => ensure!(eof == 0, "{}", at("output after its end".into())),
				Rcv::Ext(n, _) => return Err(at(format!("extended data of type {}", n))),
				Rcv::Request(t, _) => return Err(at(format!("request {}", hex_short(t)))),
				Rcv::Adjust(_) => {}
			}
		}
		ensure!(replies == usize::from(self.want), "{}", at(format!("{} replies to the request", replies)));
		ensure!(exit.len() == 1, "{}", at(format!("exit statuses {:?}", exit)));
		ensure!(eof == 1 && close == 1, "{}", at(format!("{} ends of output, {} closes", eof, close)));
		match e.status {
			Some(n) => ensure!(exit[0] == n, "{}", at(format!("exit status {} instead of {}", exit[0], n))),
			None => ensure!(exit[0] != 0, "{}", at("exit status 0 of a program killed by a signal".into())),
		}
		Ok(())
	}
}

fn chan() -> BoxedStrategy<DChan> {
	let end = prop_oneof![
		3 => Just(None),
		3 => any::<u8>().prop_map(|n| Some(Tok::Exit(n))),
		1 => any::<u8>().prop_map(|n| Some(Tok::Kill(n))),
	];
	let later = proptest::option::weighted(0.1, (any::<u16>(), 0u16..2000, 1u8..40).prop_map(|(a, b, c)| Tok::Later(a, b, c)));
	let input = vec(prop_oneof![4 => 1u32..300, 1 => 1u32..40_000, 1 => Just(32768u32), 1 => 100_000u32..400_000], 0..4);
	let window = prop_oneof![3 => Just(2u32 << 20), 1 => Just(1 << 15), 1 => 5000u32..100_000];
	let max = prop_oneof![3 => Just(32768u32), 1 => 500u32..5000, 1 => Just(u32::MAX)];
	(prop_oneof![9 => Just(false), 1 => Just(true)], (vec(tok(), 0..5), later, end), vec(any::<u8>(), 0..6), input, any::<bool>(), (window, max), prop_oneof![3 => Just(true), 1 => Just(false)])
		.prop_map(|(shell, (mut toks, later, end), style, input, eof, (window, max), want)| {
			toks.extend(later);
			toks.extend(end);
			DChan { shell, toks, style: Hex(style), input, eof, window, max, want }
		})
		.boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Attempt {
	None,
	Password(Hex),
	/// A signature with something wrong
	Sign(u8, u8),
	/// Whether a key would do
	Probe(u8),
	/// The same with another algorithm
	OtherProbe,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DConn {
	pub user: Hex,
	pub key: u8,
	pub attempts: Vec<Attempt>,
	/// Does it authenticate in the end?
	pub honest: bool,
	pub chans: Vec<DChan>,
	/// All channels at the same time
	pub parallel: bool,
	pub delay: u8,
	pub early: u8,
}
impl DConn {
	fn client(&self, id: usize) -> Client {
		let svc = hx("ssh-connection");
		let mut ops = vec![Op::Service(hx("ssh-userauth"))];
		let sign = |wrong| Op::Sign(SignOp { user: self.user.clone(), service: svc.clone(), key: self.key, wrong });
		for a in &self.attempts {
			ops.push(match a {
				Attempt::None => Op::Auth(RMsg::new("ua_none", vec![V::S(self.user.clone()), V::S(svc.clone())])),
				Attempt::Password(p) => Op::Auth(RMsg::new("ua_password", vec![V::S(self.user.clone()), V::S(svc.clone()), V::S(p.clone())])),
				Attempt::Sign(_, w) => sign(1 + w % (WRONGS - 1)),
				Attempt::Probe(k) => {
					let blob = two_strings(b"ssh-ed25519", ed_key(*k).public.as_bytes());
					Op::Auth(RMsg::new("ua_pk_blob", vec![V::S(self.user.clone()), V::S(svc.clone()), V::S(hx("ssh-ed25519")), V::S(Hex(blob))]))
				}
				Attempt::OtherProbe => {
					let blob = two_strings(b"ssh-rsa", &content(4, 0, 100));
					Op::Auth(RMsg::new("ua_pk_blob", vec![V::S(self.user.clone()), V::S(svc.clone()), V::S(hx("ssh-rsa")), V::S(Hex(blob))]))
				}
			});
		}
		if self.honest {
			ops.push(sign(0));
		}
		ops.push(Op::Sync);
		let n = self.chans.len();
		let input = |k: usize, ops: &mut Vec<Op>| {
			for l in &self.chans[k].input {
				ops.push(Op::Data { ch: k as u8, len: *l, chunk: u32::MAX });
			}
			if self.chans[k].eof || self.chans[k].needs_end() {
				ops.push(Op::Eof(k as u8));
			}
		};
		if self.parallel {
			ops.extend((0..n).map(|k| self.chans[k].open(k)));
			ops.push(Op::Sync);
			ops.extend((0..n).map(|k| self.chans[k].start(k as u8)));
			for k in 0..n {
				input(k, &mut ops);
			}
			ops.extend((0..n).map(|k| Op::WaitEnd(k as u8)));
		} else {
			for k in 0..n {
				ops.push(self.chans[k].open(k));
				ops.push(Op::Sync);
				ops.push(self.chans[k].start(k as u8));
				input(k, &mut ops);
				ops.push(Op::WaitEnd(k as u8));
			}
		}
		let mut hs = HsCfg::plain(id as u64 + 900);
		hs.early = self.early;
		Client::new(id, ClientCfg { hs, ops, after: 0, auto_close: true, fill: 0 }, vec![], any_server())
	}

	fn judge(&self, c: &Conn) -> Result<(), String> {
		let cl = &c.cl;
		if let Some(e) = &cl.t.err {
			return Err(format!("the daemon's output is wrong: {}", e));
		}
		let kinds: Vec<&str> = cl.auth_rcvd.iter().map(|m| &*m.1.kind).collect();
		let mut want = vec!["service_accept"];
		for a in &self.attempts {
			want.push(if matches!(a, Attempt::Probe(_)) { "ua_pk_ok" } else { "ua_failure" });
		}
		if self.honest {
			want.push("ua_success");
		}
		if !self.honest {
			ensure!(!cl.authed, "authenticated without a valid signature: {:?}", kinds);
			ensure!(cl.chans.iter().all(|c| c.state != ChState::Open), "a channel was opened without authentication");
			ensure!(kinds == want, "replies to authentication {:?}, expected {:?}", kinds, want);
			return Ok(());
		}
		ensure!(kinds == want, "replies to authentication {:?}, expected {:?}{}", kinds, want, if c.ended { "; the connection ended" } else { "" });
		ensure!(!c.stalled, "nothing more comes at operation {}: {:?}", cl.pc, cl.cfg.ops.get(cl.pc));
		ensure!(cl.finished(), "the connection ended at operation {}: {:?}", cl.pc, cl.cfg.ops.get(cl.pc));
		if let Some(s) = cl.strays.first() {
			return Err(s.clone());
		}
		for (k, ch) in self.chans.iter().enumerate() {
			ch.judge(cl, k)?;
		}
		Ok(())
	}
}

fn dconn(chans: std::ops::Range<usize>) -> BoxedStrategy<DConn> {
	let attempt = prop_oneof![
		1 => Just(Attempt::None),
		1 => gen_bytes(40).prop_map(Attempt::Password),
		3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Attempt::Sign(a, b)),
		1 => (0u8..4).prop_map(Attempt::Probe),
		1 => Just(Attempt::OtherProbe),
	];
	let user = prop_oneof![3 => "[a-z]{1,8}", 1 => "\\PC{0,12}"].prop_map(|s| Hex(s.into_bytes()));
	((user, 0u8..8), vec(attempt, 0..4), prop_oneof![9 => Just(true), 1 => Just(false)], vec(chan(), chans), any::<bool>(), (0u8..12, 0u8..4))
		.prop_map(|((user, key), attempts, honest, chans, parallel, (delay, early))| DConn { user, key, attempts, honest, chans, parallel, delay, early })
		.boxed()
}

fn gen_bytes(max: usize) -> BoxedStrategy<Hex> {
	vec(any::<u8>(), 0..max).prop_map(Hex).boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DCase {
	pub conns: Vec<DConn>,
	/// One after another, so often
	#[serde(default)]
	pub times: u16,
	/// Limit of open files
	#[serde(default)]
	pub files: Option<u16>,
}

/// Something small, for doing it often.
fn small_conn(chans: usize, honest: bool, attempts: Vec<Attempt>) -> DConn {
	let ch = |k: usize| DChan {
		shell: k % 7 == 6,
		toks: match k % 3 {
			0 => vec![Tok::Out(0, k as u16, 300, false), Tok::Exit(k as u8)],
			1 => vec![Tok::Out(1, k as u16, 300, false), Tok::Cat],
			_ => vec![Tok::Out(0, 1, 10, false), Tok::Kill(k as u8)],
		},
		style: Hex(vec![]),
		input: if k % 2 == 0 { vec![100] } else { vec![] },
		eof: k % 4 < 2,
		window: 1 << 20,
		max: 32768,
		want: true,
	};
	DConn { user: hx("user"), key: 1, attempts, honest, chans: (0..chans).map(ch).collect(), parallel: false, delay: 0, early: 0 }
}

fn run_good(conns: &[DConn]) -> Vec<Conn> {
	std::thread::scope(|s| {
		let h: Vec<_> = conns
			.iter()
			.enumerate()
			.map(|(i, c)| s.spawn(move || talk(c.client(i), c.delay.into(), true)))
			.collect();
		h.into_iter().map(|h| h.join().expect("client")).collect()
	})
}

/// Run something against the daemon; a daemon that hangs must hang twice.
fn confirmed(config: &Config, f: impl Fn() -> (bool, Result<Obs, String>)) -> Verdict {
	for round in 0..2 {
		ensure_daemon(config)?;
		let (stalled, r) = f();
		let r = still_running().and(r);
		let r = r.and_then(|o| at_rest().map(|()| o));
		match r {
			Err(m) => {
				restart_later();
				if !stalled || round == 1 {
					return Err(m);
				}
			}
			Ok(mut o) => {
				if round == 1 {
					o.label(true, "stalled once");
				}
				return Ok(o);
			}
		}
	}
	unreachable!()
}

pub struct C28;
impl Prop for C28 {
	type Case = DCase;
	const ID: &'static str = "C28";
	fn rule(&self) -> &'static str {
		"The real daemon (as an unprivileged user) serves 1-5 simultaneous reference clients over TCP. Each makes failing authentication attempts, then authenticates (or not) and runs 1-3 programs, at the same time or one after another: a helper that writes to both streams, copies input, prints its arguments, closes streams, leaves a process behind, exits with a status or dies of a signal, or the shell. Output, error output and status are compared with a model of the helper. Inner evaluations are channels. Non-trivial: a program ran."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["the schedule is that of the operating system, so a run is reproducible only up to timing", "port 2222 is free"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(800, 15)
	}
	fn shards(&self) -> u32 {
		1
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<DCase> {
		vec(dconn(1..4), 1..6).prop_map(|conns| DCase { conns, times: 1, files: None }).boxed()
	}
	fn fixed(&self, t: Tier) -> Vec<DCase> {
		// What a program or a connection takes is given back: more of them than there are files.
		let files = Some(48);
		let n = t.cases(100, 4) as u16;
		vec![
			DCase { conns: vec![small_conn(n.into(), true, vec![])], times: 1, files },
			DCase { conns: vec![small_conn(3, true, vec![])], times: n, files },
			DCase { conns: vec![small_conn(0, false, vec![Attempt::None, Attempt::Sign(0, 3)]), small_conn(1, true, vec![Attempt::Probe(1)])], times: n, files },
		]
	}
	fn max_shrink(&self) -> u32 {
		150
	}
	fn hang_after(&self) -> Duration {
		Duration::from_secs(400)
	}
	fn check(&self, c: &DCase) -> Verdict {
		confirmed(&Config { shell: 0, files: c.files }, || {
			let mut stalled = false;
			for n in 0..c.times.max(1) {
				let r = run_good(&c.conns);
				stalled |= r.iter().any(|c| c.stalled);
				for (i, (d, conn)) in c.conns.iter().zip(&r).enumerate() {
					if let Err(e) = d.judge(conn) {
						let turn = if n > 0 { format!("time {}: ", n) } else { String::new() };
						return (stalled, Err(format!("{}client {}: {}", turn, i, e)));
					}
				}
			}
			let ran: Vec<&DChan> = c.conns.iter().filter(|c| c.honest).flat_map(|c| &c.chans).collect();
			let mut o = Obs::new(!ran.is_empty());
			o.inner = ran.len() as u64;
			o.label(c.conns.len() > 1, "several clients");
			o.label(c.conns.iter().any(|c| !c.honest), "not authenticated");
			o.label(c.conns.iter().any(|c| c.honest && !c.attempts.is_empty()), "refused attempts");
			o.label(ran.iter().any(|c| c.shell), "shell");
			o.label(ran.iter().any(|c| c.toks.contains(&Tok::Cat) && !c.input.is_empty()), "copies input");
			o.label(ran.iter().any(|c| c.toks.iter().any(|t| matches!(t, Tok::Kill(_)))), "killed");
			o.label(ran.iter().any(|c| c.toks.iter().any(|t| matches!(t, Tok::Later(..)))), "process left behind");
			o.label(ran.iter().any(|c| c.toks.iter().any(|t| matches!(t, Tok::Exit(1..)))), "other status");
			o.label(ran.iter().any(|c| c.toks.iter().any(|t| matches!(t, Tok::Out(_, _, 40_000.., _)))), "much output");
			(stalled, Ok(o))
		})
	}
}

// ------------------------------------------------------------------ C29

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Bad {
	/// Requests that cannot be served: on the n-th of some channels
	Requests { user: Hex, requests: Vec<(u8, Option<Hex>, bool)>, honest: Option<DChan>, split: bool },
	/// Anything
	Hostile(Box<crate::session::SConn>),
	/// Authentication attempts of all kinds
	Auth(Vec<Op>),
	/// Raw bytes
	Bytes(Hex),
	/// So many connections that do nothing, then all of them end
	Many(u8),
	/// Start a program and leave: 0: reset, 1: half-close, 2: reset without reading anything
	Leave(Hex, u8),
}

impl Bad {
	fn attack(&self, id: usize, config: &Config) -> Vec<Conn> {
		let login = |user: &Hex| {
			vec![
				Op::Service(hx("ssh-userauth")),
				Op::Sign(SignOp { user: user.clone(), service: hx("ssh-connection"), key: 3, wrong: 0 }),
				Op::Sync,
			]
		};
		let cfg = |ops| ClientCfg { hs: HsCfg::plain(id as u64 + 700), ops, after: 0, auto_close: true, fill: 0 };
		match self {
			Bad::Requests { user, requests, honest, split } => {
				let mut ops = login(user);
				let n = if *split { requests.len() } else { 1 };
				for k in 0..n {
					ops.push(Op::Open { ty: hx("session"), cn: k as u32, window: 1 << 20, max: 32768, auto: true });
				}
				ops.push(Op::Sync);
				for (k, (_, c, want)) in requests.iter().enumerate() {
					let ch = if *split { k as u8 } else { 0 };
					ops.push(match c {
						Some(c) => {
							let mut d = vec![];
							put_str(&mut d, c);
							Op::Req { ch, ty: hx("exec"), data: Hex(d), want: *want }
						}
						None => Op::Req { ch, ty: hx("shell"), data: Hex(vec![]), want: *want },
					});
				}
				ops.push(Op::Sync);
				if let Some(h) = honest {
					let k = ops.iter().filter(|o| matches!(o, Op::Open { .. })).count() as u8;
					ops.push(h.open(20));
					ops.push(Op::Sync);
					ops.push(h.start(k));
					for l in &h.input {
						ops.push(Op::Data { ch: k, len: *l, chunk: u32::MAX });
					}
					ops.push(Op::Eof(k));
					ops.push(Op::WaitEnd(k));
				}
				// Without files to open, a request may well fail and nothing more come.
				vec![talk(Client::new(id, cfg(ops), vec![], any_server()), 0, config.files.is_none())]
			}
			Bad::Hostile(s) => {
				let mut cl = s.client.clone();
				for o in &mut cl.ops {
					if let Op::Auth(m) = o {
						if m.kind == "ua_none" && m.s(0).starts_with(b"conn-") {
							*o = Op::Sign(SignOp { user: hx("somebody"), service: hx("ssh-connection"), key: 3, wrong: 0 });
						}
					}
				}
				let mut progs = s.progs.clone();
				for (i, p) in progs.iter_mut().enumerate() {
					p.command = hx(["h o1:100000 c x3", "h e1:10 s30", "h r10 q1 s5 q2"][i % 3]);
				}
				vec![talk(Client::new(id, cl, progs, any_server()), 0, false)]
			}
			Bad::Auth(ops) => {
				let mut all = vec![Op::Service(hx("ssh-userauth"))];
				all.extend(ops.iter().cloned());
				vec![talk(Client::new(id, cfg(all), vec![], any_server()), 0, false)]
			}
			Bad::Bytes(b) => {
				if let Ok(mut s) = TcpStream::connect(ADDR) {
					let _ = s.write_all(b);
				}
				vec![]
			}
			Bad::Leave(c, how) => {
				let mut ops = login(&hx("x"));
				ops.push(Op::Open { ty: hx("session"), cn: 1, window: 1 << 16, max: 32768, auto: false });
				ops.push(Op::Sync);
				if how % 3 == 2 {
					ops.push(Op::Deaf);
				}
				let mut d = vec![];
				put_str(&mut d, c);
				ops.push(Op::Req { ch: 0, ty: hx("exec"), data: Hex(d), want: true });
				if how % 3 != 2 {
					ops.push(Op::Sync);
				}
				ops.push(if how % 3 == 1 { Op::Cut } else { Op::Reset });
				vec![talk(Client::new(id, cfg(ops), vec![], any_server()), 0, false)]
			}
			Bad::Many(n) => {
				let v: Vec<_> = (0..*n).filter_map(|_| TcpStream::connect(ADDR).ok()).collect();
				// Something is going on while nothing can be opened.
				let c = talk(Client::new(id, cfg(login(&hx("x"))), vec![], any_server()), 0, false);
				drop(v);
				vec![c]
			}
		}
	}
}

/// Commands of clients that leave before they end. All of them end without input.
const LEFT: [&str; 5] = ["h c", "h o1:200000 c", "h e1:200000", "h c s30 o1:100000", "h r10 q0 q1 s20"];

/// Commands that cannot be run.
fn bad_command() -> BoxedStrategy<Hex> {
	prop_oneof![
		2 => Just(vec![]),
		2 => vec(prop_oneof![Just(b' '), Just(b'\t'), Just(b'\n'), Just(b'\r'), Just(b'\x0c')], 1..6),
		2 => Just(b"missing-program".to_vec()),
		1 => Just(b"./missing arg".to_vec()),
		1 => Just(b"/nonexistent/x".to_vec()),
		1 => Just(b"plain".to_vec()),
		1 => Just(b"dir".to_vec()),
		1 => Just(b"garbage x".to_vec()),
		1 => Just(b"h\0x".to_vec()),
		1 => Just(b"h a\0b".to_vec()),
		1 => Just(b"\0".to_vec()),
		1 => Just(b"/".to_vec()),
		1 => Just(b".".to_vec()),
		1 => Just(b"\xff\xfe\x80".to_vec()),
		1 => Just(vec![b'y'; 5000]),
		1 => Just(vec![b'y'; 30_000]),
		2 => vec(any::<u8>(), 1..30).prop_map(|mut v| {
			// Nothing that exists
			v.insert(0, b'#');
			v
		}),
	]
	.prop_map(Hex)
	.boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BadCase {
	pub config: Config,
	pub bad: Vec<Bad>,
	/// At the same time
	pub beside: Vec<DConn>,
	/// Afterwards
	pub after: DConn,
	/// The bad clients come so often
	#[serde(default)]
	pub times: u16,
}

pub struct C29;
impl Prop for C29 {
	type Case = BadCase;
	const ID: &'static str = "C29";
	fn rule(&self) -> &'static str {
		"The real daemon (as an unprivileged user) gets 1-3 bad clients: every kind of authentication attempt, requests for missing, empty, unusable and binary commands and for unusable shells, hostile messages at every stage, aborted connections, raw bytes, and more connections than it may open files. It must not end, failing requests must be refused, and reference clients at the same time and afterwards must be served completely. Non-trivial: a bad client got through the key exchange."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["the schedule is that of the operating system, so a run is reproducible only up to timing", "port 2222 is free"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(900, 15)
	}
	fn shards(&self) -> u32 {
		1
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<BadCase> {
		let small = |n| {
			dconn(1..2).prop_map(move |mut c| {
				c.honest = true;
				c.attempts.truncate(n);
				c.parallel = false;
				for ch in &mut c.chans {
					ch.shell = false;
					ch.toks.retain(|t| !matches!(t, Tok::Out(_, _, 10_000.., _) | Tok::Head(10_000..)));
					ch.input.retain(|n| *n < 10_000);
				}
				c
			})
		};
		let user = prop_oneof![3 => Just(hx("user")), 1 => "\\PC{0,12}".prop_map(|s| Hex(s.into_bytes()))];
		let bad = prop_oneof![
			4 => (user, vec((any::<u8>(), prop_oneof![6 => bad_command().prop_map(Some), 1 => Just(None)], any::<bool>()), 1..5), proptest::option::of(small(0)), any::<bool>())
				.prop_map(|(user, requests, h, split)| Bad::Requests { user, requests, honest: h.map(|h| h.chans[0].clone()), split }),
			4 => hostile::hostile(1).prop_map(|s| Bad::Hostile(Box::new(s))),
			4 => vec(auth::request(None, true), 1..6).prop_map(Bad::Auth),
			1 => gen_bytes(300).prop_map(Bad::Bytes),
			1 => (20u8..80).prop_map(Bad::Many),
			1 => (0usize..LEFT.len(), 0u8..3).prop_map(|(c, how)| Bad::Leave(hx(LEFT[c]), how)),
		];
		let config = prop_oneof![
			6 => Just(Config { shell: 0, files: None }),
			1 => (1u8..5).prop_map(|shell| Config { shell, files: None }),
			1 => Just(Config { shell: 0, files: Some(40) }),
		];
		(config, vec(bad, 1..4), vec(small(1), 0..2), small(1))
			.prop_map(|(config, bad, mut beside, after)| {
				if config.files.is_some() {
					// It may be unable to serve anybody else meanwhile.
					beside.clear();
				}
				BadCase { config, bad, beside, after, times: 1 }
			})
			.boxed()
	}
	fn fixed(&self, t: Tier) -> Vec<BadCase> {
		// What bad clients took is given back: more of them than there are files.
		let times = t.cases(45, 4) as u16;
		let of = |bad| BadCase { config: Config { shell: 0, files: Some(48) }, bad, beside: vec![], after: small_conn(2, true, vec![]), times };
		let mut v = vec![];
		for how in 0..3 {
			v.extend(LEFT.iter().map(|c| of(vec![Bad::Leave(hx(c), how)])));
		}
		let requests = ["missing", "", "plain", "garbage"].iter().map(|c| (0, Some(hx(c)), true)).collect();
		v.push(of(vec![Bad::Requests { user: hx("x"), requests, honest: None, split: true }]));
		v.push(of(vec![Bad::Bytes(hx("SSH-2.0-x\r\n\0\0\0\x0cabc")), Bad::Bytes(Hex(vec![]))]));
		v.push(of(vec![Bad::Auth(vec![Op::Auth(RMsg::new("ua_none", vec![V::S(hx("a")), V::S(hx("b"))])), Op::Payload(Hex(vec![200]))])]));
		v
	}
	fn max_shrink(&self) -> u32 {
		150
	}
	fn hang_after(&self) -> Duration {
		Duration::from_secs(400)
	}
	fn check(&self, c: &BadCase) -> Verdict {
		confirmed(&c.config, || {
			for _ in 1..c.times {
				std::thread::scope(|s| {
					for (i, b) in c.bad.iter().enumerate() {
						s.spawn(move || b.attack(i + 20, &c.config));
					}
				});
			}
			let (bad, good) = std::thread::scope(|s| {
				let h: Vec<_> = c.bad.iter().enumerate().map(|(i, b)| s.spawn(move || b.attack(i + 20, &c.config))).collect();
				let good = run_good(&c.beside);
				(h.into_iter().map(|h| h.join().expect("client")).collect::<Vec<_>>(), good)
			});
			let mut stalled = good.iter().any(|c| c.stalled);
			let mut o = Obs::new(bad.iter().flatten().any(|c| !c.cl.auth_rcvd.is_empty() || c.cl.t.established()));
			let r = (|| -> Result<(), String> {
				for (i, (d, conn)) in c.beside.iter().zip(&good).enumerate() {
					d.judge(conn).map_err(|e| format!("good client {}: {}", i, e))?;
				}
				let after = run_good(std::slice::from_ref(&c.after));
				stalled |= after[0].stalled;
				c.after.judge(&after[0]).map_err(|e| format!("client afterwards: {}", e))?;
				Ok(())
			})();
			if let Err(e) = r {
				return (stalled, Err(e));
			}
			for (b, conns) in c.bad.iter().zip(&bad) {
				if let (Bad::Requests { requests, honest, split, .. }, Some(conn)) = (b, conns.first()) {
					if let Err(e) = judge_requests(&c.config, requests, honest, *split, conn) {
						return (conn.stalled, Err(e));
					}
					o.label(true, "requests that cannot be served");
				}
				o.label(matches!(b, Bad::Hostile(_)), "hostile");
				o.label(matches!(b, Bad::Auth(_)), "authentication attempts");
				o.label(matches!(b, Bad::Many(_)), "many connections");
			}
			o.label(c.config.shell != 0, "no usable shell");
			o.label(c.config.files.is_some(), "few files");
			o.label(bad.iter().flatten().any(|c| c.ended), "bad connection ended");
			(false, Ok(o))
		})
	}
}

/// Requests that cannot be served are refused, one by one, and the connection goes on.
fn judge_requests(config: &Config, requests: &[(u8, Option<Hex>, bool)], honest: &Option<DChan>, split: bool, c: &Conn) -> Result<(), String> {
	let cl = &c.cl;
	if config.files.is_some() {
		return Ok(());
	}
	if let Some(e) = &cl.t.err {
		return Err(format!("the daemon's output is wrong: {}", e));
	}
	ensure!(cl.authed, "not authenticated: {:?}", cl.auth_rcvd.iter().map(|m| &m.1.kind).collect::<Vec<_>>());
	let shell_works = config.shell == 0;
	if requests.iter().any(|r| r.1.is_none()) && shell_works {
		// A shell was started; what follows depends on it.
		return Ok(());
	}
	ensure!(!c.stalled, "nothing more comes at operation {}: {:?}", cl.pc, cl.cfg.ops.get(cl.pc));
	ensure!(cl.finished(), "the connection ended at operation {}: {:?}", cl.pc, cl.cfg.ops.get(cl.pc));
	let n = if split { requests.len() } else { 1 };
	for k in 0..n {
		let want = if split { usize::from(requests[k].2) } else { requests.iter().filter(|r| r.2).count() };
		let got = cl.chans[k].rcvd.iter().filter(|r| r.1 == Rcv::Failure).count();
		ensure!(got == want && cl.chans[k].rcvd.len() == want, "channel {}: {} failures for {} bad requests: {:?}", k, got, want, cl.chans[k].rcvd);
	}
	if let Some(h) = honest {
		h.judge(cl, n)?;
	}
	Ok(())
}
