//! Running the real programs: scratch directories, an unprivileged user, pipes that are
//! served by one thread, snapshots of directory trees.
use crate::util::*;
use std::{
	collections::BTreeMap,
	ffi::OsString,
	fs,
	io::{Read, Write},
	os::unix::{
		ffi::{OsStrExt, OsStringExt},
		fs::{chown, MetadataExt, PermissionsExt},
		io::AsRawFd,
		process::{CommandExt, ExitStatusExt},
	},
	path::{Path, PathBuf},
	process::{Child, ChildStderr, ChildStdin, ChildStdout, Command, Stdio},
	sync::{atomic::AtomicI32, atomic::AtomicU64, atomic::Ordering, OnceLock},
	time::{Duration, Instant},
};

pub const NOBODY: u32 = 65534;

pub fn is_root() -> bool {
	unsafe { libc::geteuid() == 0 }
}

static SCRATCH: OnceLock<PathBuf> = OnceLock::new();
/// Processes that must not survive.
pub static DAEMON: AtomicI32 = AtomicI32::new(0);

extern "C" fn at_exit() {
	kill_daemon();
	if let Some(p) = SCRATCH.get() {
		let _ = fs::remove_dir_all(p);
	}
}

pub fn kill_daemon() {
	let pid = DAEMON.swap(0, Ordering::SeqCst);
	if pid > 1 {
		// The daemon leads a process group with all its children.
		unsafe { libc::kill(-pid, libc::SIGKILL) };
	}
}

/// The scratch directory of this run; it is removed at the end.
pub fn scratch() -> &'static Path {
	SCRATCH.get_or_init(|| {
		let p = PathBuf::from(format!("/tmp/vp-{}", std::process::id()));
		let _ = fs::remove_dir_all(&p);
		fs::create_dir(&p).expect("scratch directory");
		fs::set_permissions(&p, fs::Permissions::from_mode(0o755)).expect("permissions");
		unsafe { libc::atexit(at_exit) };
		p
	})
}

/// A copy of the program under test that the unprivileged user can run.
pub fn program() -> &'static Path {
	static P: OnceLock<PathBuf> = OnceLock::new();
	P.get_or_init(|| {
		let from = std::env::var_os("VP_PROGRAM").expect("VP_PROGRAM is set by check.sh");
		let to = scratch().join("program");
		fs::copy(&from, &to).expect("copy of the program");
		fs::set_permissions(&to, fs::Permissions::from_mode(0o755)).expect("permissions");
		to
	})
}

/// A fresh directory that belongs to the unprivileged user.
pub struct Case(pub PathBuf);
impl Case {
	pub fn new() -> Self {
		static N: AtomicU64 = AtomicU64::new(0);
		let p = scratch().join(format!("case-{}", N.fetch_add(1, Ordering::Relaxed)));
		let c = Self(p);
		c.dir(Path::new(""));
		c
	}
	fn own(&self, p: &Path) {
		if is_root() {
			chown(p, Some(NOBODY), Some(NOBODY)).expect("chown");
		}
	}
	/// Make a directory and its parents.
	pub fn dir(&self, rel: &Path) -> PathBuf {
		let mut p = self.0.clone();
		if !p.exists() {
			fs::create_dir(&p).expect("case directory");
			self.own(&p);
		}
		for c in rel.components() {
			p.push(c);
			if !p.exists() {
				fs::create_dir(&p).expect("directory");
				self.own(&p);
			}
		}
		p
	}
	pub fn file(&self, rel: &Path, content: &[u8]) -> PathBuf {
		if let Some(d) = rel.parent() {
			self.dir(d);
		}
		let p = self.0.join(rel);
		fs::write(&p, content).expect("file");
		self.own(&p);
		p
	}
}
impl Drop for Case {
	fn drop(&mut self) {
		let _ = fs::remove_dir_all(&self.0);
	}
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
	Dir,
	File(Hex),
	Other,
}

/// Everything below a directory, by path relative to it.
pub fn snapshot(root: &Path) -> BTreeMap<Vec<u8>, Node> {
	fn walk(root: &Path, p: &Path, m: &mut BTreeMap<Vec<u8>, Node>) {
		for e in fs::read_dir(p).expect("readable directory") {
			let path = e.expect("entry").path();
			let key = path.strip_prefix(root).expect("below").as_os_str().as_bytes().to_vec();
			let meta = fs::symlink_metadata(&path).expect("metadata");
			if meta.is_dir() {
				m.insert(key, Node::Dir);
				walk(root, &path, m);
			} else if meta.is_file() {
				let c = if meta.len() > 64 << 20 { meta.size().to_be_bytes().to_vec() } else { fs::read(&path).expect("content") };
				m.insert(key, Node::File(Hex(c)));
			} else {
				m.insert(key, Node::Other);
			}
		}
	}
	let mut m = BTreeMap::new();
	walk(root, root, &mut m);
	m
}

pub fn os(b: &[u8]) -> OsString {
	OsString::from_vec(b.to_vec())
}

/// While a program is being started it holds copies of all our pipes.
static STARTING: std::sync::Mutex<()> = std::sync::Mutex::new(());

pub struct Proc {
	pub child: Child,
	stdin: Option<ChildStdin>,
	stdout: Option<ChildStdout>,
	stderr: Option<ChildStderr>,
	pub queue: Vec<u8>,
	/// The program does not read its input any more.
	pub broken: bool,
	pub out: Vec<u8>,
	pub err: Vec<u8>,
	status: Option<std::process::ExitStatus>,
}

fn nonblocking(fd: i32) {
	unsafe {
		let f = libc::fcntl(fd, libc::F_GETFL);
		libc::fcntl(fd, libc::F_SETFL, f | libc::O_NONBLOCK);
	}
}

/// What to run: as the unprivileged user, without any of our environment.
pub fn command(program: &Path, cwd: &Path) -> Command {
	let mut c = Command::new(program);
	c.env_clear().current_dir(cwd);
	if is_root() {
		c.uid(NOBODY).gid(NOBODY);
	}
	unsafe {
		c.pre_exec(|| {
			libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
			Ok(())
		});
	}
	c
}

impl Proc {
	pub fn new(mut c: Command) -> Result<Self, String> {
		let _lock = STARTING.lock();
		// Nothing is kept open.
		unsafe {
			c.pre_exec(|| {
				let l = libc::rlimit { rlim_cur: 64, rlim_max: 64 };
				libc::setrlimit(libc::RLIMIT_NOFILE, &l);
				Ok(())
			});
		}
		let mut child = c
			.stdin(Stdio::piped())
			.stdout(Stdio::piped())
			.stderr(Stdio::piped())
			.spawn()
			.map_err(|e| format!("{}: cannot start the program: {}", crate::runner::HARNESS_ERROR, e))?;
		let (stdin, stdout, stderr) = (child.stdin.take(), child.stdout.take(), child.stderr.take());
		nonblocking(stdin.as_ref().expect("pipe").as_raw_fd());
		nonblocking(stdout.as_ref().expect("pipe").as_raw_fd());
		nonblocking(stderr.as_ref().expect("pipe").as_raw_fd());
		Ok(Self { child, stdin, stdout, stderr, queue: vec![], broken: false, out: vec![], err: vec![], status: None })
	}
	pub fn close_stdin(&mut self) {
		self.stdin = None;
	}
	pub fn close_stdout(&mut self) {
		let _lock = STARTING.lock();
		self.stdout = None;
	}
	pub fn out_ended(&self) -> bool {
		self.stdout.is_none()
	}
	/// All input has left the pipe.
	fn drained(&self) -> bool {
		match &self.stdin {
			None => true,
			Some(s) => {
				let mut n: libc::c_int = 0;
				let r = unsafe { libc::ioctl(s.as_raw_fd(), libc::FIONREAD, &mut n) };
				r != 0 || n == 0
			}
		}
	}
	/// Serve the pipes until the condition holds. False: it did not within the time.
	pub fn pump(&mut self, time: Duration, done: impl Fn(&Self) -> bool) -> bool {
		let start = Instant::now();
		loop {
			if done(self) {
				return true;
			}
			if self.stdout.is_none() && self.stderr.is_none() && (self.queue.is_empty() || self.stdin.is_none()) {
				return done(self);
			}
			let left = time.saturating_sub(start.elapsed());
			if left.is_zero() {
				return false;
			}
			let mut fds = vec![];
			let fd = |f: i32, events: i16| libc::pollfd { fd: f, events, revents: 0 };
			fds.push(match (&self.stdin, self.queue.is_empty()) {
				(Some(s), false) => fd(s.as_raw_fd(), libc::POLLOUT),
				_ => fd(-1, 0),
			});
			fds.push(self.stdout.as_ref().map_or(fd(-1, 0), |s| fd(s.as_raw_fd(), libc::POLLIN)));
			fds.push(self.stderr.as_ref().map_or(fd(-1, 0), |s| fd(s.as_raw_fd(), libc::POLLIN)));
			let ms = left.as_millis().clamp(1, 1000) as i32;
			unsafe { libc::poll(fds.as_mut_ptr(), 3, ms) };
			if fds[0].revents != 0 {
				match self.stdin.as_mut().expect("pipe").write(&self.queue) {
					Ok(n) => {
						self.queue.drain(..n);
					}
					Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
					Err(_) => {
						self.broken = true;
						self.stdin = None;
						self.queue.clear();
					}
				}
			}
			let mut buf = [0; 1 << 16];
			if fds[1].revents != 0 {
				match self.stdout.as_mut().expect("pipe").read(&mut buf) {
					Ok(0) => self.stdout = None,
					Ok(n) => self.out.extend_from_slice(&buf[..n]),
					Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
					Err(_) => self.stdout = None,
				}
			}
			if fds[2].revents != 0 {
				match self.stderr.as_mut().expect("pipe").read(&mut buf) {
					Ok(0) => self.stderr = None,
					Ok(n) => self.err.extend_from_slice(&buf[..n]),
					Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
					Err(_) => self.stderr = None,
				}
			}
		}
	}
	/// Hand over bytes, in portions that are (as a rule) read one by one.
	pub fn feed(&mut self, b: &[u8], portions: &mut Tape) -> bool {
		let mut rest = b;
		let mut n = 0;
		while !rest.is_empty() {
			let l = match portions.next() {
				_ if n >= 10 => rest.len(),
				0..=99 => rest.len(),
				x @ 100..=160 => usize::from(x - 99),
				x @ 161..=200 => usize::from(x) * 37,
				x => usize::from(x) * 300,
			}
			.min(rest.len());
			n += 1;
			self.queue.extend_from_slice(&rest[..l]);
			rest = &rest[l..];
			if !self.pump(Duration::from_secs(60), |p| p.queue.is_empty() || p.stdin.is_none()) {
				return false;
			}
			if !rest.is_empty() {
				let t = Instant::now();
				while !self.drained() && t.elapsed() < Duration::from_millis(50) {
					std::thread::yield_now();
				}
			}
		}
		true
	}
	/// Close the input and wait for the end of the program.
	pub fn finish(&mut self) -> Result<(), String> {
		self.pump(Duration::from_secs(60), |p| p.queue.is_empty() || p.stdin.is_none());
		self.close_stdin();
		self.wait()
	}
	/// Wait for the end of the program.
	pub fn wait(&mut self) -> Result<(), String> {
		let start = Instant::now();
		self.pump(Duration::from_secs(60), |p| p.stdout.is_none() && p.stderr.is_none());
		loop {
			match self.child.try_wait() {
				Ok(Some(s)) => {
					self.status = Some(s);
					return Ok(());
				}
				_ if start.elapsed() > Duration::from_secs(60) => {
					let _ = self.child.kill();
					let _ = self.child.wait();
					return Err("the program does not end although its input has ended".into());
				}
				_ => std::thread::sleep(Duration::from_micros(200)),
			}
		}
	}
	pub fn code(&self) -> Option<i32> {
		self.status.and_then(|s| s.code())
	}
	/// Ended like a program should: not by a signal or a panic.
	pub fn orderly(&self) -> Result<i32, String> {
		let err = String::from_utf8_lossy(&self.err);
		if let Some(s) = self.status.and_then(|s| s.signal()) {
			return Err(format!("the program was killed by signal {}: {}", s, err));
		}
		if err.contains("panicked at") {
			return Err(format!("the program panicked: {}", err));
		}
		self.code().ok_or_else(|| "no exit status".into())
	}
}
impl Drop for Proc {
	fn drop(&mut self) {
		if self.status.is_none() {
			let _ = self.child.kill();
			let _ = self.child.wait();
		}
	}
}
