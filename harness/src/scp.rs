//! C24 - C27: the scp program.
use crate::{proc::*, runner::*, util::*};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
	collections::BTreeMap,
	os::unix::{ffi::OsStrExt, fs::PermissionsExt},
	path::{Path, PathBuf},
	time::Duration,
};

const SLOW: Duration = Duration::from_secs(20);

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FileSpec {
	pub name: Hex,
	pub mode: u16,
	pub size: u32,
	pub fill: u8,
}
impl FileSpec {
	/// Its name does not fit into a header, or the sender cannot tell it.
	fn unsendable(&self) -> bool {
		self.name.contains(&b'\n') || std::str::from_utf8(&self.name).is_err()
	}
	fn content(&self, i: usize) -> Vec<u8> {
		let n = self.size as usize;
		match self.fill {
			0 => content(mix(i as u64 + 77), 0, n),
			1 => vec![0; n],
			2 => b"C0644 3 x\n".iter().cycle().take(n).cloned().collect(),
			3 => vec![b'\n'; n],
			_ => (0..n).map(|k| [0, b'\n', b'C', 1, 2, 255][k * 7 % 6]).collect(),
		}
	}
	fn header(&self) -> Vec<u8> {
		let mut v = format!("C{:04o} {} ", self.mode & 0o777, self.size).into_bytes();
		v.extend_from_slice(&self.name);
		v.push(b'\n');
		v
	}
}

fn size() -> BoxedStrategy<u32> {
	prop_oneof![
		2 => Just(0u32),
		6 => 1u32..40,
		3 => 0u32..3000,
		2 => prop_oneof![Just(8191u32), Just(8192), Just(8193), Just(4096), Just(16384)],
		2 => prop_oneof![Just(32767u32), Just(32768), Just(32769), Just(65535), Just(65536), Just(65537), Just(98304)],
		1 => 0u32..200_000,
	]
	.boxed()
}

/// A name that a file can have.
fn name() -> BoxedStrategy<Hex> {
	let word = prop_oneof![
		6 => "[a-z]{1,8}(\\.[a-z]{1,3})?",
		2 => "[ -~]{1,12}",
		2 => "[a-z]{1,3}( {1,2}[a-z]{1,3}){1,3}",
		1 => " {0,2}[a-z] {0,2}",
		1 => "\\PC{1,8}",
		1 => prop_oneof![
			Just("...".to_string()), Just(".hidden".into()), Just("-t".into()), Just("-d".into()), Just("C0644 5 y".into()),
			Just("0644 5 y".into()), Just("~".into()), Just("$HOME".into()), Just("a\\b".into()), Just("*".into()),
			Just("..\\x".into()), Just("%2e%2e%2fx".into()), Just(".. ".into()), Just(" ..".into()), Just("tab\there".into()),
			Just("cr\r".into()), Just("\u{1b}[1m".into()), Just("日本 語".into()), Just("\u{2024}\u{2024}".into()), Just("x".repeat(255)),
			Just("é".repeat(127)), Just(" ".into()), Just("5".into()), Just("\"q\" 'r'".into()), Just("a..b".into()), Just("..a".into()),
		],
		// A few names, so that they come again
		4 => prop_oneof![Just("a".to_string()), Just("b".into()), Just("c d".into())],
	];
	word.prop_map(|s| {
		let mut s: String = s.replace(['/', '\n', '\0'], "_");
		while s.len() > 255 {
			s.pop();
		}
		if matches!(&*s, "" | "." | "..") {
			s = "x".into();
		}
		Hex(s.into_bytes())
	})
	.boxed()
}

fn file() -> BoxedStrategy<FileSpec> {
	(name(), prop_oneof![3 => Just(0o644u16), 1 => Just(0o755), 1 => 0u16..0o1000], size(), prop_oneof![4 => Just(0u8), 1 => 1u8..5])
		.prop_map(|(name, mode, size, fill)| FileSpec { name, mode, size, fill })
		.boxed()
}

/// What a receiver has to do with a stream of bytes.
#[derive(Debug, Clone, Default)]
pub struct Want {
	/// Zero bytes sent, at least and at most
	pub acks: usize,
	/// Files that are complete, with the last content
	pub files: BTreeMap<Vec<u8>, Vec<u8>>,
	/// Files that are being received or may have been created
	pub touched: Vec<Vec<u8>>,
	pub ok: bool,
	/// Why not
	pub fault: &'static str,
	/// The documentation does not say what happens from here on.
	pub unspecified: bool,
}

/// The documented protocol, for a receiver that has the whole stream. `paths`: single files.
fn model(stream: &[u8], paths: Option<&[Vec<u8>]>, dirs: &[&[u8]]) -> Want {
	let mut w = Want { acks: 1, ..Default::default() };
	let mut i = 0;
	let mut n = 0;
	loop {
		let fail = |mut w: Want, f| {
			w.fault = f;
			w
		};
		if i == stream.len() {
			if paths.map_or(true, |p| n == p.len()) {
				w.ok = true;
				return w;
			}
			return fail(w, "too few files");
		}
		if stream[i] != b'C' {
			return fail(w, "not a file header");
		}
		let Some(l) = stream[i..].iter().position(|b| *b == b'\n') else { return fail(w, "truncated header") };
		let line = &stream[i + 1..i + l];
		i += l + 1;
		let Ok(line) = std::str::from_utf8(line) else { return fail(w, "name is not UTF-8") };
		let parts: Vec<&str> = line.splitn(3, ' ').collect();
		if parts.len() < 3 {
			return fail(w, "missing field");
		}
		if parts[0].len() != 4 || !parts[0].bytes().all(|b| (b'0'..=b'7').contains(&b)) {
			w.unspecified = true;
			return w;
		}
		if parts[1].starts_with('+') {
			w.unspecified = true;
			return w;
		}
		if parts[1].is_empty() || !parts[1].bytes().all(|b| b.is_ascii_digit()) {
			return fail(w, "size is not a number");
		}
		let Ok(size) = parts[1].parse::<u64>() else { return fail(w, "size is too large") };
		let key = match paths {
			Some(p) => match p.get(n) {
				None => return fail(w, "too many files"),
				Some(p) => p.clone(),
			},
			None => {
				let name = parts[2];
				if matches!(name, "" | "." | "..") || name.contains('/') {
					return fail(w, "name that leaves the directory");
				}
				if name.contains('\0') || name.len() > 255 || dirs.contains(&name.as_bytes()) {
					return fail(w, "name that cannot be created");
				}
				name.as_bytes().to_vec()
			}
		};
		n += 1;
		w.acks += 1;
		w.touched.push(key.clone());
		w.files.remove(&key);
		if ((stream.len() - i) as u64) < size {
			return fail(w, "truncated content");
		}
		let size = size as usize;
		match stream.get(i + size) {
			None => return fail(w, "no final zero"),
			Some(0) => {}
			Some(_) => return fail(w, "final byte is not zero"),
		}
		w.files.insert(key, stream[i..i + size].to_vec());
		i += size + 1;
		w.acks += 1;
	}
}

fn acks(out: &[u8]) -> Result<usize, String> {
	ensure!(out.iter().all(|b| *b == 0), "the receiver sends something other than acknowledgements: {}", hex_short(out));
	Ok(out.len())
}

// ------------------------------------------------------------------ C24

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct RecvCase {
	pub dir: bool,
	/// How the target is named and what is there
	pub target: u8,
	pub files: Vec<FileSpec>,
	/// Existing files: under the name of the n-th one, of a size
	pub pre: Vec<(u8, u32)>,
	pub portions: Hex,
	/// Content and final zero in one piece
	pub joined: bool,
	pub flags: u8,
}

/// A path argument is written in one of several ways.
fn spell(case: &Case, cwd: &Path, p: &Path, how: u8) -> PathBuf {
	let abs = case.0.join(p);
	let rel = p.strip_prefix(cwd).ok();
	match (how % 4, rel) {
		(0, Some(r)) if !r.as_os_str().as_bytes().starts_with(b"-") => r.into(),
		(1, Some(r)) => Path::new(".").join(r),
		(2, Some(r)) => {
			let up = cwd.file_name().map_or(PathBuf::from("."), |n| Path::new("..").join(n));
			up.join(r)
		}
		_ => abs,
	}
}

fn tree_diff(before: &BTreeMap<Vec<u8>, Node>, after: &BTreeMap<Vec<u8>, Node>) -> Vec<Vec<u8>> {
	let mut v = vec![];
	for (k, n) in after {
		if before.get(k) != Some(n) {
			v.push(k.clone());
		}
	}
	for k in before.keys() {
		if !after.contains_key(k) {
			v.push(k.clone());
		}
	}
	v
}

impl RecvCase {
	fn run(&self) -> Verdict {
		let case = Case::new();
		let cwd = Path::new("work");
		case.dir(cwd);
		let target = match self.target % 5 {
			0 => "work/target",
			1 => "work/new/deep er/target",
			2 => "other/target",
			3 => "work/t t",
			_ => "work/.t",
		};
		let target = Path::new(target);
		let mut cmd = command(program(), &case.0.join(cwd));
		let mut flags: Vec<&str> = vec!["-t"];
		if self.dir {
			flags.push("-d");
			if self.flags & 1 != 0 {
				flags.reverse();
			}
		}
		let mut tail: Vec<&str> = vec![];
		if self.flags & 6 == 6 {
			tail.extend(flags.pop());
		}
		cmd.args(flags);
		// Where each file belongs, relative to the case
		let mut places = vec![];
		if self.dir {
			let mut d = case.0.join(target);
			if self.target % 2 == 0 {
				case.dir(target);
				case.file(&target.join("unrelated"), b"kept");
				case.file(&target.join("sub/unrelated"), b"kept");
			}
			d = if self.target & 16 != 0 { d.join("") } else { spell(&case, cwd, target, self.flags >> 4) };
			cmd.arg(d);
			for f in &self.files {
				let n = if &**f.name == b"unrelated" || &**f.name == b"sub" { &b"renamed"[..] } else { &f.name };
				places.push(target.join(os(n)));
			}
		} else {
			for (i, f) in self.files.iter().enumerate() {
				// Distinct places: the names are given on the command line.
				let mut n = f.name.0.clone();
				n.truncate(240);
				while std::str::from_utf8(&n).is_err() {
					n.pop();
				}
				let sub = if i % 2 == 0 { format!("d{}", i) } else { String::new() };
				let p = target.join(sub).join(os(&[format!("{}-", i).as_bytes(), &n].concat()));
				cmd.arg(spell(&case, cwd, &p, (self.flags >> 4).wrapping_add(i as u8)));
				places.push(p);
			}
		}
		cmd.args(tail);
		for (k, size) in &self.pre {
			if let Some(p) = places.get(usize::from(*k) % places.len().max(1)) {
				if p.parent().map_or(false, |d| self.target % 2 == 0 || case.0.join(d).exists()) {
					case.file(p, &content(5, 0, *size as usize));
				}
			}
		}
		let before = snapshot(&case.0);
		let mut p = Proc::new(cmd)?;
		let mut portions = Tape::new(&self.portions);
		let mut expected = 1;
		let mut wait = |p: &mut Proc, what: &str| -> Result<(), String> {
			if !p.pump(SLOW, |p| p.out.len() >= expected || p.out_ended()) || p.out.len() < expected {
				// With the end of the input there is nothing left to wait for.
				let f = p.finish();
				if p.out.len() < expected {
					f?;
					return Err(format!("{}: {} acknowledgements instead of {}; {}", what, p.out.len(), expected, String::from_utf8_lossy(&p.err)));
				}
				return Err(format!("{}: too slow", HARNESS_ERROR));
			}
			let n = acks(&p.out)?;
			ensure!(n == expected, "{}: {} acknowledgements instead of {}", what, n, expected);
			expected += 1;
			Ok(())
		};
		wait(&mut p, "start")?;
		let mut want = before.clone();
		for (i, f) in self.files.iter().enumerate() {
			let c = f.content(i);
			let mut f = f.clone();
			if self.dir {
				f.name = Hex(places[i].file_name().expect("name").as_bytes().to_vec());
			}
			p.feed(&f.header(), &mut portions);
			wait(&mut p, &format!("header of file {}", i))?;
			let key = places[i].as_os_str().as_bytes().to_vec();
			if self.joined {
				p.feed(&[&c[..], &[0]].concat(), &mut portions);
			} else {
				p.feed(&c, &mut portions);
				p.feed(&[0], &mut portions);
			}
			wait(&mut p, &format!("content of file {}", i))?;
			want.insert(key, Node::File(Hex(c)));
			let mut d = places[i].parent();
			while let Some(x) = d.filter(|x| !x.as_os_str().is_empty()) {
				want.insert(x.as_os_str().as_bytes().to_vec(), Node::Dir);
				d = x.parent();
			}
		}
		if self.dir {
			let mut d = Some(target);
			while let Some(x) = d.filter(|x| !x.as_os_str().is_empty()) {
				want.insert(x.as_os_str().as_bytes().to_vec(), Node::Dir);
				d = x.parent();
			}
		}
		p.finish()?;
		let code = p.orderly()?;
		ensure!(code == 0, "exit status {} after a good transfer: {}", code, String::from_utf8_lossy(&p.err));
		ensure!(acks(&p.out)? == 1 + 2 * self.files.len(), "{} acknowledgements in the end", p.out.len());
		let after = snapshot(&case.0);
		if let Some(k) = tree_diff(&want, &after).first() {
			let show = |n: Option<&Node>| match n {
				Some(Node::File(c)) => format!("{} bytes", c.len()),
				n => format!("{:?}", n),
			};
			return Err(match (after.get(k), want.get(k)) {
				(Some(Node::File(a)), Some(Node::File(b))) => format!("{:?}: {}", os(k), diff(a, b)),
				(a, b) => format!("{:?}: {} instead of {}", os(k), show(a), show(b)),
			});
		}
		let mut o = Obs::new(!self.files.is_empty());
		o.inner = self.files.iter().map(|f| u64::from(f.size)).sum();
		o.label(self.dir, "directory");
		o.label(!self.dir, "single files");
		o.label(self.files.iter().any(|f| f.name.contains(&b' ')), "name with space");
		o.label(self.files.iter().any(|f| f.size == 0), "empty file");
		o.label(self.files.iter().any(|f| f.size > 32768), "more than one buffer");
		o.label(self.files.len() > 1, "several files");
		o.label(self.pre.iter().any(|x| x.1 > 0), "file was there before");
		Ok(o)
	}
}

pub struct C24;
impl Prop for C24 {
	type Case = RecvCase;
	const ID: &'static str = "C24";
	fn rule(&self) -> &'static str {
		"The real receiving scp is fed 0-5 files step by step (names with spaces and odd characters, sizes around buffer limits, confusing content, portions read one by one, existing and missing target directories, files that were there before). Acknowledgements are counted after every step and the whole tree is compared in the end. Inner evaluations are content bytes. Non-trivial: at least one file."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(16_000, 20)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<RecvCase> {
		(any::<bool>(), any::<u8>(), vec(file(), 0..6), vec((any::<u8>(), size()), 0..3), vec(any::<u8>(), 0..12), any::<bool>(), any::<u8>())
			.prop_map(|(dir, target, mut files, pre, portions, joined, flags)| {
				if !dir && files.is_empty() {
					files.push(FileSpec { name: Hex(b"x".to_vec()), mode: 0o644, size: 0, fill: 0 });
				}
				RecvCase { dir, target, files, pre, portions: Hex(portions), joined, flags }
			})
			.boxed()
	}
	fn fixed(&self, _: Tier) -> Vec<RecvCase> {
		// Sizes around every limit, one by one
		let mut v = vec![];
		for s in [0u32, 1, 2, 3, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32766, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 1 << 20, 3_000_001] {
			for dir in [false, true] {
				let f = FileSpec { name: Hex(b"f".to_vec()), mode: 0o644, size: s, fill: (s % 5) as u8 };
				v.push(RecvCase { dir, target: 0, files: vec![f.clone(), FileSpec { name: Hex(b"g".to_vec()), ..f }], pre: vec![(0, 70_000)], portions: Hex(vec![]), joined: s % 2 == 0, flags: 0 });
			}
		}
		// Very many files
		for dir in [false, true] {
			v.push(RecvCase {
				dir,
				target: 1,
				files: (0..300u32).map(|i| FileSpec { name: Hex(format!("n {}", i).into_bytes()), mode: 0o600, size: i * 31 % 500, fill: 0 }).collect(),
				pre: vec![],
				portions: Hex(vec![]),
				joined: true,
				flags: 0,
			});
		}
		v
	}
	fn max_shrink(&self) -> u32 {
		400
	}
	fn check(&self, c: &RecvCase) -> Verdict {
		c.run()
	}
}

// ------------------------------------------------------------------ C25

/// In names, this stands for the case's directory (with a slash).
const ROOT: u8 = 0x1d;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct EscapeCase {
	pub target: u8,
	pub files: Vec<FileSpec>,
	/// Header letters other than C, by file
	pub letters: Vec<(u8, u8)>,
	pub cut: u8,
}

fn hostile_name() -> BoxedStrategy<Hex> {
	let part = prop_oneof![
		6 => Just("..".to_string()),
		1 => Just(".".into()),
		1 => Just("".into()),
		2 => Just("sub".into()),
		1 => Just("sub2".into()),
		2 => Just("victim".into()),
		2 => Just("keep".into()),
		2 => Just("new".into()),
		1 => Just("sibling".into()),
		1 => Just("target".into()),
		1 => Just("work".into()),
		1 => Just("a b".into()),
		1 => Just("..a".into()),
		1 => Just(".. ".into()),
		1 => Just(" ..".into()),
		1 => Just("...".into()),
	];
	let path = (vec(part, 1..6), 0u8..12).prop_map(|(mut p, how)| {
		// Never higher than the case's directory
		let mut n = 0;
		p.retain(|x| {
			n += usize::from(x == "..");
			x != ".." || n <= 3
		});
		let s = p.join("/");
		let root = ROOT as char;
		match how {
			0 => format!("{}{}", root, s.replace("..", "x")),
			1 => format!("{}work/target/{}", root, s),
			2 => format!(" {}", s),
			3 => format!("a {}", s),
			4 => format!("{}/", s),
			5 => format!("{}\t", s),
			6 => format!("{}victim", root),
			7 => s.replace('/', "//"),
			_ => s,
		}
	});
	let plain = prop_oneof![
		Just(""), Just("."), Just(".."), Just("..\\victim"), Just("sub\\x"), Just("..\u{2215}victim"), Just("%2e%2e%2fvictim"),
		Just("victim\0"), Just("..\0"), Just("sub"), Just("sub2"), Just("..\r"), Just("keep"), Just("~/x"), Just("~"), Just("..;"), Just(". "),
		Just(" ."), Just("sub/"), Just("sub/."), Just("./keep"), Just("../target/keep"), Just("sub/inner"), Just("sub2/new"), Just("/"), Just("//"), Just("../../.."),
		Just("sub/../keep"), Just("sub/../../victim"), Just("\u{feff}../victim"), Just("C:\\victim"), Just("/dev/null"),
	]
	.prop_map(|s| s.to_string());
	prop_oneof![4 => path, 2 => plain].prop_map(|s| Hex(s.into_bytes())).boxed()
}

pub struct C25;
impl Prop for C25 {
	type Case = EscapeCase;
	const ID: &'static str = "C25";
	fn rule(&self) -> &'static str {
		"The real receiving scp in directory mode, run as an unprivileged user in a scratch tree that it could write to everywhere, gets up to four files of which most have names made of parent components, separators, absolute paths, empty and dot names, encodings of separators and plain names. Snapshots of the whole tree before and after: only direct entries of the target may change, each under exactly an announced name; a name that is not a plain file name must end the transfer with an error and without acknowledgement. Non-trivial: a name with a separator, an empty or a dot name was announced."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["the target directory contains no symbolic links"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(20_000, 20)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<EscapeCase> {
		let file = (prop_oneof![3 => hostile_name(), 1 => name()], 0u32..20, Just(0o644u16), Just(0u8))
			.prop_map(|(name, size, mode, fill)| FileSpec { name, size, mode, fill });
		(any::<u8>(), vec(file, 1..5), vec((0u8..4, prop_oneof![Just(b'D'), Just(b'E'), Just(b'T'), Just(b'c')]), 0..2), 0u8..60)
			.prop_map(|(target, files, letters, cut)| EscapeCase {
				target,
				files,
				letters: if target % 4 == 0 { letters } else { vec![] },
				cut,
			})
			.boxed()
	}
	fn max_shrink(&self) -> u32 {
		400
	}
	fn check(&self, c: &EscapeCase) -> Verdict {
		let case = Case::new();
		let cwd = Path::new("work");
		let target = Path::new("work/target");
		for f in ["victim", "work/victim", "work/target/keep", "work/target/sub/inner", "work/target/sub/victim", "work/sibling/victim", "sibling/keep"] {
			case.file(Path::new(f), format!("old content of {}", f).as_bytes());
		}
		case.dir(Path::new("work/target/sub2"));
		let before = snapshot(&case.0);
		let mut stream = vec![];
		let mut announced = vec![];
		for (i, f) in c.files.iter().enumerate() {
			let mut f = f.clone();
			let root = [case.0.as_os_str().as_bytes(), b"/"].concat();
			f.name = Hex(f.name.iter().flat_map(|b| if *b == ROOT { root.clone() } else { vec![*b] }).collect());
			announced.push(f.name.to_vec());
			let mut h = f.header();
			if let Some((_, l)) = c.letters.iter().find(|x| usize::from(x.0) == i) {
				h[0] = *l;
			}
			stream.extend(h);
			stream.extend(f.content(i));
			stream.push(0);
		}
		if c.cut > 50 {
			stream.truncate(stream.len() * usize::from(c.cut - 50) / 10);
		}
		let w = model(&stream, None, &[b"sub", b"sub2"]);
		let mut cmd = command(program(), &case.0.join(cwd));
		cmd.args(["-t", "-d"]).arg(spell(&case, cwd, target, c.target));
		let mut p = Proc::new(cmd)?;
		p.queue = stream;
		p.finish()?;
		let code = p.orderly()?;
		let after = snapshot(&case.0);
		for k in tree_diff(&before, &after) {
			let path = Path::new(std::ffi::OsStr::from_bytes(&k));
			ensure!(path.parent() == Some(target), "{:?} was changed, which is not in the target directory", path);
			let n = path.file_name().expect("name").as_bytes().to_vec();
			ensure!(announced.contains(&n), "{:?} was changed, a name that was not announced", path);
			ensure!(w.unspecified || w.touched.contains(&n), "{:?} was changed after the transfer had failed ({})", path, w.fault);
		}
		for (n, content) in &w.files {
			let k = [b"work/target/", &n[..]].concat();
			ensure!(after.get(&k) == Some(&Node::File(Hex(content.clone()))), "{:?} is not as sent", os(n));
		}
		if !w.unspecified {
			let n = acks(&p.out)?;
			ensure!(n == w.acks, "{} acknowledgements instead of {} ({})", n, w.acks, w.fault);
			ensure!((code == 0) == w.ok, "exit status {} ({})", code, w.fault);
			ensure!(w.ok || !p.err.is_empty(), "no error message");
		}
		let mut o = Obs::new(w.fault == "name that leaves the directory");
		o.label(w.fault == "name that leaves the directory", "bad name refused");
		o.label(w.fault == "name that cannot be created", "name that cannot be created");
		o.label(w.ok, "all names good");
		o.label(w.touched.len() > 0 && !w.ok, "good names before the bad one");
		o.label(announced.iter().any(|n| n.starts_with(b"/")), "absolute");
		o.label(announced.iter().any(|n| n.windows(3).any(|w| w == b"../")), "parent");
		Ok(o)
	}
}

// ------------------------------------------------------------------ C26

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SendCase {
	pub files: Vec<FileSpec>,
	/// How the paths are written
	pub spell: u8,
	/// Directly into the receiving scp: 1: directory, 2: single files
	pub round_trip: u8,
	/// Wait before the n-th acknowledgement to see that nothing comes early
	pub hold: u8,
	/// Change the n-th file after its header: new size
	pub change: Option<(u8, u32)>,
}

/// What a sender sent so far must be: the header of this file.
fn check_header(line: &[u8], f: &FileSpec) -> Result<(), String> {
	let want = [format!(" {} ", f.size).as_bytes(), &f.name[..]].concat();
	let ok = line.len() > 5 && line[0] == b'C' && line[1..5].iter().all(|b| (b'0'..=b'7').contains(b)) && line[5..] == want[..];
	ensure!(ok, "header {:?} for a file of {} bytes named {:?}", String::from_utf8_lossy(line), f.size, String::from_utf8_lossy(&f.name));
	Ok(())
}

fn make_files(case: &Case, files: &[FileSpec], sp: u8) -> (Vec<PathBuf>, Vec<PathBuf>) {
	let cwd = Path::new("work");
	case.dir(cwd);
	let mut args = vec![];
	let mut places = vec![];
	for (i, f) in files.iter().enumerate() {
		let d = match (usize::from(sp) + i) % 3 {
			0 => format!("work/s{}", i),
			1 => format!("out side/s{}", i),
			_ => format!("work/deep/er/s{}", i),
		};
		let p = Path::new(&d).join(os(&f.name));
		case.file(&p, &f.content(i));
		args.push(spell(case, cwd, &p, sp.wrapping_add(i as u8) >> 2));
		places.push(p);
	}
	(args, places)
}

/// A conforming receiver. Returns the number of bytes of output that were judged.
struct Recv<'a> {
	p: &'a mut Proc,
	pos: usize,
}
impl Recv<'_> {
	fn need(&mut self, n: usize, what: &str) -> Result<(), String> {
		let end = self.pos + n;
		if !self.p.pump(SLOW, |p| p.out.len() >= end || p.out_ended()) || self.p.out.len() < end {
			let f = self.p.finish();
			if self.p.out.len() < end {
				f?;
				return Err(format!(
					"{}: {} of {} bytes came; {}", what, self.p.out.len() - self.pos, n, String::from_utf8_lossy(&self.p.err)
				));
			}
			return Err(format!("{}: too slow", HARNESS_ERROR));
		}
		Ok(())
	}
	fn line(&mut self) -> Result<Vec<u8>, String> {
		loop {
			if let Some(l) = self.p.out[self.pos..].iter().position(|b| *b == b'\n') {
				let v = self.p.out[self.pos..self.pos + l].to_vec();
				self.pos += l + 1;
				return Ok(v);
			}
			let n = self.p.out.len() - self.pos;
			ensure!(n < 5000, "no end of the header");
			self.need(n + 1, "header")?;
		}
	}
	/// Nothing more comes before the acknowledgement.
	fn quiet(&mut self, what: &str, hold: bool) -> Result<(), String> {
		if hold {
			let end = self.pos;
			self.p.pump(Duration::from_millis(15), |p| p.out.len() > end);
		}
		let extra = &self.p.out[self.pos..];
		ensure!(extra.is_empty(), "{}: sends on without waiting: {}", what, hex_short(extra));
		Ok(())
	}
	fn ack(&mut self, b: u8) {
		self.p.queue.push(b);
		self.p.pump(Duration::from_secs(60), |p| p.queue.is_empty());
	}
}

impl SendCase {
	fn scripted(&self) -> Verdict {
		let case = Case::new();
		let (args, places) = make_files(&case, &self.files, self.spell);
		let mut cmd = command(program(), &case.0.join("work"));
		if self.spell & 64 != 0 {
			cmd.args(&args).arg("-f");
		} else {
			cmd.arg("-f").args(&args);
		}
		let before = snapshot(&case.0);
		let mut p = Proc::new(cmd)?;
		let mut r = Recv { p: &mut p, pos: 0 };
		let mut stage = 0;
		let hold = usize::from(self.hold);
		let mut step = |r: &mut Recv, what: &str| -> Result<(), String> {
			r.quiet(what, stage == hold)?;
			stage += 1;
			r.ack(0);
			Ok(())
		};
		step(&mut r, "start")?;
		let mut changed = false;
		for (i, f) in self.files.iter().enumerate() {
			let l = match r.line() {
				Ok(l) => l,
				// A name that cannot be sent may be refused.
				Err(_) if self.files[i..].iter().any(|f| f.unsendable()) => {
					r.p.finish()?;
					fails(r.p, "a file was not sent")?;
					let mut o = Obs::new(true);
					o.label(true, "name that cannot be sent");
					return Ok(o);
				}
				Err(e) => return Err(e),
			};
			check_header(&l, f)?;
			r.quiet(&format!("header of file {}", i), false)?;
			let mut c = f.content(i);
			if let Some((n, size)) = self.change {
				// It may grow while it is sent; what was announced is sent.
				if usize::from(n) == i && size > f.size {
					changed = true;
					c.extend(content(9, 0, (size - f.size) as usize));
					std::fs::write(case.0.join(&places[i]), &c).expect("change");
					c.truncate(f.size as usize);
				}
			}
			step(&mut r, &format!("header of file {}", i))?;
			r.need(c.len() + 1, &format!("content of file {}", i))?;
			let got = &r.p.out[r.pos..r.pos + c.len()];
			ensure!(got == &c[..], "content of file {}: {}", i, diff(got, &c));
			ensure!(r.p.out[r.pos + c.len()] == 0, "file {} does not end with a zero byte", i);
			r.pos += c.len() + 1;
			step(&mut r, &format!("content of file {}", i))?;
		}
		// It has to end by itself.
		r.p.wait()?;
		r.quiet("end", false)?;
		let code = r.p.orderly()?;
		ensure!(code == 0, "exit status {} after a good transfer: {}", code, String::from_utf8_lossy(&r.p.err));
		if !changed {
			ensure!(before == snapshot(&case.0), "the sender changed files");
		}
		let mut o = Obs::new(true);
		o.label(changed, "file grew meanwhile");
		Ok(o)
	}

	fn both(&self) -> Verdict {
		let case = Case::new();
		let (args, _) = make_files(&case, &self.files, self.spell);
		let target = Path::new("work/received");
		let mut to = command(program(), &case.0.join("work"));
		to.arg("-t");
		let mut want: BTreeMap<Vec<u8>, Node> = BTreeMap::new();
		if self.round_trip == 1 {
			to.arg("-d").arg(spell(&case, Path::new("work"), target, self.spell));
			for (i, f) in self.files.iter().enumerate() {
				want.insert(f.name.to_vec(), Node::File(Hex(f.content(i))));
			}
		} else {
			for (i, f) in self.files.iter().enumerate() {
				let n = format!("r{}", i);
				to.arg(spell(&case, Path::new("work"), &target.join(&n), self.spell));
				want.insert(n.into_bytes(), Node::File(Hex(f.content(i))));
			}
		}
		let mut from = command(program(), &case.0.join("work"));
		from.arg("-f").args(&args);
		let mut a = Proc::new(from)?;
		let mut b = Proc::new(to)?;
		// Carry the bytes to and fro.
		let (mut na, mut nb) = (0, 0);
		let start = std::time::Instant::now();
		loop {
			a.pump(Duration::from_millis(1), |p| p.out.len() > na || p.out_ended());
			b.queue.extend_from_slice(&a.out[na..]);
			na = a.out.len();
			if a.out_ended() && b.queue.is_empty() {
				break;
			}
			b.pump(Duration::from_millis(1), |p| p.out.len() > nb || p.out_ended());
			a.queue.extend_from_slice(&b.out[nb..]);
			nb = b.out.len();
			if b.out_ended() || start.elapsed() > Duration::from_secs(60) {
				break;
			}
		}
		ensure!(start.elapsed() < Duration::from_secs(60), "sender and receiver wait for each other: {} bytes one way, {} the other", na, nb);
		b.finish()?;
		a.finish()?;
		for (p, who) in [(&a, "sender"), (&b, "receiver")] {
			let code = p.orderly()?;
			ensure!(code == 0, "exit status {} of the {}: {}", code, who, String::from_utf8_lossy(&p.err));
		}
		let got = if case.0.join(target).exists() { snapshot(&case.0.join(target)) } else { BTreeMap::new() };
		if let Some(k) = tree_diff(&want, &got).first() {
			return Err(match (got.get(k), want.get(k)) {
				(Some(Node::File(a)), Some(Node::File(b))) => format!("{:?}: {}", os(k), diff(a, b)),
				(a, b) => format!("{:?}: there: {}, expected: {}", os(k), a.is_some(), b.is_some()),
			});
		}
		let mut o = Obs::new(true);
		o.label(true, "into the receiving scp");
		Ok(o)
	}
}

pub struct C26;
impl Prop for C26 {
	type Case = SendCase;
	const ID: &'static str = "C26";
	fn rule(&self) -> &'static str {
		"The real sending scp gets 1-5 files (odd names, sizes around buffer limits, also files that grow between header and content) and talks to a reference receiver, which checks every byte and that nothing is sent before its acknowledgement, or to the real receiving scp, after which the trees are compared. Inner evaluations are content bytes. Every case has a file and is non-trivial."
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(8_000, 20)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<SendCase> {
		(vec(file(), 1..6), any::<u8>(), prop_oneof![3 => Just(0u8), 1 => Just(1), 1 => Just(2)], 0u8..40, proptest::option::weighted(0.2, (0u8..4, size())))
			.prop_flat_map(|(files, spell, round_trip, hold, change)| {
				let n = files.len();
				let odd = prop_oneof![
					8 => Just(None),
					1 => (0..n, vec(prop_oneof![1 => Just(0xffu8), 1 => 0x80u8..0xc0, 2 => Just(b'a'), 1 => Just(b'\n'), 1 => Just(b' ')], 1..6)).prop_map(Some),
				];
				(Just(SendCase { files, spell, round_trip, hold, change }), odd)
			})
			.prop_map(|(mut c, odd)| {
				if let Some((n, name)) = odd {
					c.round_trip = 0;
					c.files[n].name = Hex(name);
				}
				c
			})
			.boxed()
	}
	fn fixed(&self, _: Tier) -> Vec<SendCase> {
		let mut v = vec![];
		for s in [0u32, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 1 << 20, 3_000_001] {
			for round_trip in 0..3 {
				let f = FileSpec { name: Hex(b"f".to_vec()), mode: 0o644, size: s, fill: (s % 5) as u8 };
				let g = FileSpec { name: Hex(b"g h".to_vec()), ..f.clone() };
				v.push(SendCase { files: vec![f, g], spell: 0, round_trip, hold: (s % 7) as u8, change: None });
			}
		}
		v.push(SendCase {
			files: (0..200u32).map(|i| FileSpec { name: Hex(format!("n {}", i).into_bytes()), mode: 0o644, size: i * 31 % 500, fill: 0 }).collect(),
			spell: 0,
			round_trip: 0,
			hold: 255,
			change: None,
		});
		v
	}
	fn max_shrink(&self) -> u32 {
		400
	}
	fn check(&self, c: &SendCase) -> Verdict {
		let mut o = if c.round_trip == 0 { c.scripted()? } else { c.both()? };
		o.inner = c.files.iter().map(|f| u64::from(f.size)).sum();
		o.label(c.files.iter().any(|f| f.name.contains(&b' ')), "name with space");
		o.label(c.files.iter().any(|f| f.size == 0), "empty file");
		o.label(c.files.iter().any(|f| f.size > 32768), "more than one buffer");
		o.label(c.files.len() > 1, "several files");
		Ok(o)
	}
}

// ------------------------------------------------------------------ C27

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Mutation {
	Truncate(u32),
	Set(u32, u8),
	Insert(u32, u8),
	Delete(u32, u8),
	/// The final byte of the n-th file
	Final(u8, u8),
	/// Another header for the n-th file
	Header(u8, Hex),
	/// Other announced size
	Size(u8, Hex),
	/// More bytes after the last file
	Append(Hex),
	None,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum FaultCase {
	Receive { dir: bool, files: Vec<FileSpec>, paths: u8, how: Mutation, portions: Hex },
	/// The place where the n-th file belongs is bad
	Place { files: Vec<FileSpec>, n: u8, how: u8, dir: bool },
	/// Acknowledgement number n is another byte, or missing
	Refuse { files: Vec<FileSpec>, n: u8, byte: Option<u8>, more: Hex },
	/// The n-th file is bad
	Source { files: Vec<FileSpec>, n: u8, how: u8 },
	/// The other side does not read any more after so many steps
	Deaf { files: Vec<FileSpec>, send: bool, dir: bool, after: u8 },
	Args(Vec<Hex>),
}

fn fails(p: &Proc, why: &str) -> Result<(), String> {
	let code = p.orderly()?;
	ensure!(code != 0, "exit status 0: {}", why);
	ensure!(!p.err.is_empty(), "no error message: {}", why);
	Ok(())
}

const PLACE_FAULTS: u8 = 6;
const SOURCE_FAULTS: u8 = 8;

impl FaultCase {
	fn run(&self) -> Verdict {
		let case = Case::new();
		let work = case.dir(Path::new("work"));
		let mut o = Obs::new(true);
		match self {
			FaultCase::Receive { dir, files, paths, how, portions } => {
				let mut segs: Vec<[Vec<u8>; 3]> = files
					.iter()
					.enumerate()
					.map(|(i, f)| [f.header(), f.content(i), vec![0]])
					.collect();
				let n = segs.len();
				match how {
					Mutation::Final(i, b) if n > 0 => segs[usize::from(*i) % n][2] = vec![*b],
					Mutation::Header(i, h) if n > 0 => segs[usize::from(*i) % n][0] = h.to_vec(),
					Mutation::Size(i, s) if n > 0 => {
						let f = &files[usize::from(*i) % n];
						segs[usize::from(*i) % n][0] = [b"C0644 ", &s[..], b" ", &f.name[..], b"\n"].concat();
					}
					_ => {}
				}
				let mut s: Vec<u8> = segs.concat().concat();
				let l = s.len();
				match how {
					Mutation::Truncate(k) => s.truncate(*k as usize % (l + 1)),
					Mutation::Set(k, b) if l > 0 => s[*k as usize % l] = *b,
					Mutation::Insert(k, b) => s.insert(*k as usize % (l + 1), *b),
					Mutation::Delete(k, m) if l > 0 => {
						let k = *k as usize % l;
						s.drain(k..(k + 1 + usize::from(*m)).min(l));
					}
					Mutation::Append(b) => s.extend_from_slice(b),
					_ => {}
				}
				let mut cmd = command(program(), &work);
				cmd.arg("-t");
				let names: Vec<Vec<u8>> = (0..*paths).map(|i| format!("p{}", i).into_bytes()).collect();
				let w = if *dir {
					cmd.arg("-d").arg("target");
					model(&s, None, &[])
				} else {
					cmd.args(names.iter().map(|n| os(n)));
					model(&s, Some(&names), &[])
				};
				let before = snapshot(&case.0);
				let mut p = Proc::new(cmd)?;
				p.feed(&s, &mut Tape::new(portions));
				p.finish()?;
				let code = p.orderly()?;
				let after = snapshot(&case.0);
				let n = acks(&p.out)?;
				if w.unspecified {
					ensure!(n >= w.acks, "{} acknowledgements instead of at least {}", n, w.acks);
				} else {
					ensure!(n == w.acks, "{} acknowledgements instead of {} ({})", n, w.acks, w.fault);
					ensure!((code == 0) == w.ok, "exit status {} ({}): {}", code, w.fault, String::from_utf8_lossy(&p.err));
					ensure!(w.ok || !p.err.is_empty(), "no error message ({})", w.fault);
				}
				let base = if *dir { &b"work/target/"[..] } else { b"work/" };
				if !w.unspecified {
					for (n, content) in &w.files {
						let k = [base, &n[..]].concat();
						match after.get(&k) {
							Some(Node::File(c)) => ensure!(c.0 == *content, "{:?}: {}", os(n), diff(c, content)),
							x => return Err(format!("{:?} was acknowledged but is not there: {:?}", os(n), x)),
						}
					}
					for k in tree_diff(&before, &after) {
						let known = k == b"work/target" || w.touched.iter().any(|n| [base, &n[..]].concat() == k);
						ensure!(known, "{:?} was changed by a transfer that does not mention it ({})", os(&k), w.fault);
					}
				}
				o.nontrivial = !w.ok;
				o.label(w.ok, "good transfer");
				o.label(w.unspecified, "not judged");
				o.label(!w.ok && !w.unspecified, w.fault_label());
				o.label(!w.ok && w.files.len() > 0, "files before the fault");
			}
			FaultCase::Place { files, n, how, dir } => {
				let k = usize::from(*n) % files.len();
				let mut cmd = command(program(), &work);
				let mut done = k;
				let mut ready = 1;
				if *dir {
					cmd.args(["-t", "-d"]);
					let name = files[k].name.clone();
					match how % PLACE_FAULTS {
						0 => {
							// A directory has that name.
							case.dir(&Path::new("work/target").join(os(&name)));
							cmd.arg("target");
							done = files.iter().position(|f| f.name == name).expect("there");
						}
						1 => {
							// The target is a file.
							case.file(Path::new("work/target"), b"file");
							cmd.arg("target");
							(done, ready) = (0, 0);
						}
						2 => {
							case.file(Path::new("work/file"), b"file");
							cmd.arg("file/target");
							(done, ready) = (0, 0);
						}
						3 => {
							// Not writable
							let d = case.dir(Path::new("work/target"));
							std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o555)).expect("permissions");
							cmd.arg("target");
							done = 0;
						}
						4 => {
							// The file is not writable.
							let f = case.file(&Path::new("work/target").join(os(&name)), b"old");
							std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o444)).expect("permissions");
							cmd.arg("target");
							done = files.iter().position(|f| f.name == name).expect("there");
						}
						_ => {
							cmd.args(["target", "other"]);
							(done, ready) = (0, 0);
						}
					}
				} else {
					cmd.arg("-t");
					for i in 0..files.len() {
						let ok = format!("p{}", i);
						if i != k {
							cmd.arg(ok);
							continue;
						}
						match how % PLACE_FAULTS {
							0 => {
								case.dir(&Path::new("work").join(&ok));
								cmd.arg(ok);
							}
							1 => {
								case.file(Path::new("work/file"), b"file");
								cmd.arg("file/x");
							}
							2 => {
								case.file(Path::new("work/file"), b"file");
								cmd.arg("file/x/y");
							}
							3 => {
								let d = case.dir(Path::new("work/ro"));
								std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o555)).expect("permissions");
								cmd.arg("ro/x");
							}
							4 => {
								let f = case.file(Path::new("work/old"), b"old");
								std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o444)).expect("permissions");
								cmd.arg("old");
							}
							_ => {
								cmd.arg("/dev/full");
							}
						}
					}
				}
				// A full device takes empty files.
				let full = !*dir && how % PLACE_FAULTS == 5;
				if full && files[k].size == 0 {
					return Ok(Obs::new(false));
				}
				if !is_root() && how % PLACE_FAULTS >= 3 && how % PLACE_FAULTS <= 4 {
					return Ok(Obs::new(false));
				}
				let stream: Vec<u8> = files.iter().enumerate().flat_map(|(i, f)| [f.header(), f.content(i), vec![0]].concat()).collect();
				let mut p = Proc::new(cmd)?;
				p.queue = stream;
				p.finish()?;
				let why = format!("place fault {} at file {}", how % PLACE_FAULTS, k);
				fails(&p, &why)?;
				let n = acks(&p.out)?;
				// The header may be acknowledged before the device turns out to be full.
				let want = ready + 2 * done;
				ensure!(n == want || (full && n == want + 1), "{} acknowledgements instead of {}: {}", n, want, why);
				o.label(true, "bad target");
			}
			FaultCase::Refuse { files, n, byte, more } => {
				let (args, _) = make_files(&case, files, 0);
				let mut cmd = command(program(), &work);
				cmd.arg("-f").args(&args);
				let mut p = Proc::new(cmd)?;
				let mut r = Recv { p: &mut p, pos: 0 };
				let bad = usize::from(*n) % (1 + 2 * files.len());
				let mut stage = 0;
				let refuse = |r: &mut Recv, stage: usize| -> bool {
					if stage == bad {
						if let Some(b) = byte {
							r.p.queue.push(*b);
							r.p.queue.extend_from_slice(more);
						}
						return true;
					}
					r.ack(0);
					false
				};
				let mut end = refuse(&mut r, stage);
				for (i, f) in files.iter().enumerate() {
					if end {
						break;
					}
					let l = r.line()?;
					check_header(&l, f)?;
					stage += 1;
					end = refuse(&mut r, stage);
					if end {
						break;
					}
					let c = f.content(i);
					r.need(c.len() + 1, "content")?;
					ensure!(r.p.out[r.pos..r.pos + c.len()] == c[..], "content of file {}", i);
					r.pos += c.len() + 1;
					stage += 1;
					end = refuse(&mut r, stage);
				}
				let why = format!("acknowledgement {} was {:?}", bad, byte);
				r.p.finish()?;
				fails(r.p, &why)?;
				let extra = &r.p.out[r.pos..];
				ensure!(extra.is_empty(), "sends on although {}: {}", why, hex_short(extra));
				o.label(byte.is_some(), "refused");
				o.label(byte.is_none(), "acknowledgement missing");
			}
			FaultCase::Source { files, n, how } => {
				let (mut args, places) = make_files(&case, files, 0);
				let k = usize::from(*n) % files.len();
				let path = case.0.join(&places[k]);
				let mut shrink = false;
				match how % SOURCE_FAULTS {
					0 => std::fs::remove_file(&path).expect("remove"),
					1 => {
						std::fs::remove_file(&path).expect("remove");
						std::fs::create_dir(&path).expect("directory");
					}
					2 => {
						if !is_root() {
							return Ok(Obs::new(false));
						}
						std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0)).expect("permissions");
					}
					3 => args[k] = "missing/dir/file".into(),
					4 => args[k] = "..".into(),
					5 => {
						case.file(Path::new("work/new\nline"), b"x");
						args[k] = "new\nline".into();
					}
					6 => {
						case.file(&Path::new("work").join(os(b"not\xffutf8")), b"x");
						args[k] = os(b"not\xffutf8").into();
					}
					_ => shrink = true,
				}
				if shrink && files[k].size == 0 {
					return Ok(Obs::new(false));
				}
				let mut cmd = command(program(), &work);
				cmd.arg("-f").args(&args);
				let mut p = Proc::new(cmd)?;
				let mut r = Recv { p: &mut p, pos: 0 };
				r.ack(0);
				for (i, f) in files.iter().enumerate().take(k) {
					let l = r.line()?;
					check_header(&l, f)?;
					r.ack(0);
					let c = f.content(i);
					r.need(c.len() + 1, "content")?;
					ensure!(r.p.out[r.pos..r.pos + c.len()] == c[..], "content of file {}", i);
					r.pos += c.len() + 1;
					r.ack(0);
				}
				let why = format!("source fault {} at file {}", how % SOURCE_FAULTS, k);
				if shrink {
					let l = r.line()?;
					check_header(&l, &files[k])?;
					let size = files[k].size / 2;
					std::fs::write(&path, content(3, 0, size as usize)).expect("shrink");
					r.ack(0);
					r.p.wait()?;
					let sent = &r.p.out[r.pos..];
					ensure!(sent.len() <= files[k].size as usize, "{} bytes sent of a file with {}", sent.len(), size);
				} else {
					r.p.finish()?;
					let extra = &r.p.out[r.pos..];
					ensure!(extra.is_empty(), "{}: {} was sent", why, hex_short(extra));
				}
				fails(r.p, &why)?;
				o.label(true, "bad source");
				o.label(shrink, "file shrank meanwhile");
			}
			FaultCase::Deaf { files, send, dir, after } => {
				let mut cmd = command(program(), &work);
				if *send {
					let (args, _) = make_files(&case, files, 0);
					cmd.arg("-f").args(&args);
					let mut p = Proc::new(cmd)?;
					let mut r = Recv { p: &mut p, pos: 0 };
					let k = usize::from(*after) % files.len();
					r.ack(0);
					for (i, f) in files.iter().enumerate().take(k) {
						r.line()?;
						r.ack(0);
						r.need(f.content(i).len() + 1, "content")?;
						r.pos += f.content(i).len() + 1;
						r.ack(0);
					}
					if k == 0 && after % 2 == 0 {
						return Ok(Obs::new(false));
					}
					r.line()?;
					// What follows cannot be delivered.
					r.p.close_stdout();
					r.ack(0);
					r.p.finish()?;
					fails(r.p, "the receiver is gone")?;
				} else {
					cmd.arg("-t");
					if *dir {
						cmd.args(["-d", "target"]);
					} else {
						cmd.args((0..files.len()).map(|i| format!("p{}", i)));
					}
					let mut p = Proc::new(cmd)?;
					let k = usize::from(*after) % files.len();
					let mut portions = Tape::new(&[]);
					for (i, f) in files.iter().enumerate().take(k) {
						p.feed(&[f.header(), f.content(i), vec![0]].concat(), &mut portions);
					}
					let want = 1 + 2 * k;
					if !p.pump(SLOW, |p| p.out.len() >= want || p.out_ended()) || p.out.len() < want {
						p.finish()?;
						return Err(format!("{} acknowledgements instead of {}", p.out.len(), want));
					}
					p.close_stdout();
					for (i, f) in files.iter().enumerate().skip(k) {
						p.feed(&[f.header(), f.content(i), vec![0]].concat(), &mut portions);
					}
					p.finish()?;
					fails(&p, "the sender is gone")?;
				}
				o.label(true, "other side gone");
			}
			FaultCase::Args(args) => {
				let mut cmd = command(program(), &work);
				cmd.args(args.iter().map(|a| os(a)));
				let before = snapshot(&case.0);
				let mut p = Proc::new(cmd)?;
				p.finish()?;
				fails(&p, "arguments")?;
				ensure!(p.out.is_empty(), "output {} for invalid arguments", hex_short(&p.out));
				ensure!(before == snapshot(&case.0), "files changed for invalid arguments");
				o.label(true, "invalid arguments");
			}
		}
		Ok(o)
	}
}

impl Want {
	fn fault_label(&self) -> &'static str {
		match self.fault {
			"" => "no fault",
			f => f,
		}
	}
}

fn mutation() -> BoxedStrategy<Mutation> {
	let byte = prop_oneof![any::<u8>(), Just(1u8), Just(2), Just(b'\n'), Just(b' '), Just(b'C'), Just(0)];
	let header = prop_oneof![
		Just("C0644\n"), Just("C0644 3\n"), Just("C0644 x name\n"), Just("C0644 -1 name\n"), Just("C0644  3 name\n"), Just("C\n"),
		Just("C0644 3.0 name\n"), Just("C0644 0x3 name\n"), Just("C0644 18446744073709551616 name\n"), Just("C0644 99999999999999999999999999 name\n"),
		Just("D0755 0 name\n"), Just("E\n"), Just("T1 0 1 0\n"), Just("\n"), Just("X0644 3 name\n"), Just(" C0644 3 name\n"), Just("\u{1}error\n"),
		Just("\u{2}fatal\n"), Just("c0644 3 name\n"), Just("C0644 3"), Just("C0644 3 name"), Just("C0644\t3\tname\n"), Just("C0644 3\tname\n"),
		Just("C0644 1 \n"), Just("C0644 3 name\nC0644 3 name\n"), Just("C0644 3x name\n"), Just("C0644 3,0 name\n"), Just("C0644 \u{663} name\n"),
		Just("C0644 9223372036854775807 name\n"), Just("C0644 18446744073709551615 name\n"), Just("C0644 4294967296 name\n"), Just("\0"),
	]
	.prop_map(|s| Hex(s.as_bytes().to_vec()));
	let raw_header = vec(any::<u8>(), 0..20).prop_map(Hex);
	prop_oneof![
		1 => Just(Mutation::None),
		4 => any::<u32>().prop_map(Mutation::Truncate),
		3 => (any::<u32>(), byte.clone()).prop_map(|(a, b)| Mutation::Set(a, b)),
		2 => (any::<u32>(), byte.clone()).prop_map(|(a, b)| Mutation::Insert(a, b)),
		2 => (any::<u32>(), 0u8..20).prop_map(|(a, b)| Mutation::Delete(a, b)),
		3 => (0u8..4, byte).prop_map(|(a, b)| Mutation::Final(a, b)),
		4 => (0u8..4, header).prop_map(|(a, b)| Mutation::Header(a, b)),
		1 => (0u8..4, raw_header).prop_map(|(a, b)| Mutation::Header(a, b)),
		2 => (0u8..4, prop_oneof![(0u32..100).prop_map(|n| n.to_string()), (0u64..u64::MAX).prop_map(|n| n.to_string()), "[0-9 x+.-]{0,6}"])
			.prop_map(|(a, b)| Mutation::Size(a, Hex(b.into_bytes()))),
		2 => vec(any::<u8>(), 1..12).prop_map(|b| Mutation::Append(Hex(b))),
	]
	.boxed()
}

pub struct C27;
impl Prop for C27 {
	type Case = FaultCase;
	const ID: &'static str = "C27";
	fn rule(&self) -> &'static str {
		"Fault injection into transfers by the real scp, in both roles: streams cut, changed or extended at generated places, malformed headers and sizes, wrong final bytes, too many or too few files, targets that cannot be created or written (also a full device), missing, unreadable and shrinking sources, refused or missing acknowledgements at every step, a peer that is gone, invalid arguments. A model of the documented protocol says whether the transfer is complete, how many acknowledgements were due and which files are complete. Non-trivial: the transfer had a fault."
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["headers whose mode is not four octal digits, or whose size has a plus sign, are not judged"]
	}
	fn cases(&self, t: Tier) -> u32 {
		t.cases(20_000, 20)
	}
	fn strategy(&self, _: Tier) -> BoxedStrategy<FaultCase> {
		let files = || vec(file(), 1..5);
		prop_oneof![
			10 => (any::<bool>(), vec(file(), 0..4), 0u8..2, mutation(), vec(any::<u8>(), 0..6)).prop_map(|(dir, files, d, how, portions)| {
				// As many paths as files, or (rarely) one more or less
				let paths = match files.len() as u8 {
					n if d == 0 || n == 0 => n.max(1),
					n => n + 1 - 2 * (portions.len() as u8 % 2),
				};
				FaultCase::Receive { dir, files, paths: paths.max(1), how, portions: Hex(portions) }
			}),
			3 => (files(), 0u8..4, 0..PLACE_FAULTS, any::<bool>()).prop_map(|(files, n, how, dir)| FaultCase::Place { files, n, how, dir }),
			5 => (files(), 0u8..9, proptest::option::weighted(0.7, prop_oneof![Just(1u8), Just(2), 1u8..=255]), vec(any::<u8>(), 0..5))
				.prop_map(|(files, n, byte, more)| FaultCase::Refuse { files, n, byte, more: Hex(more) }),
			3 => (files(), 0u8..4, 0..SOURCE_FAULTS).prop_map(|(files, n, how)| FaultCase::Source { files, n, how }),
			2 => (files(), any::<bool>(), any::<bool>(), 0u8..8).prop_map(|(files, send, dir, after)| FaultCase::Deaf { files, send, dir, after }),
			1 => prop_oneof![
				Just(vec![]), Just(vec!["-t"]), Just(vec!["-f"]), Just(vec!["-d"]), Just(vec!["-t", "-d"]), Just(vec!["path"]), Just(vec!["-d", "path"]),
				Just(vec!["-x", "-t", "path"]), Just(vec!["-t", "path", "-x"]), Just(vec!["-r", "-f", "path"]), Just(vec!["--", "-t", "path"]), Just(vec!["-", "-t", "path"]),
				Just(vec!["-t", "-d", "a", "b"]), Just(vec!["-td", "path"]), Just(vec!["a", "b"]), Just(vec!["-t", "--help"]), Just(vec!["-t", "-d", ""]), 
			].prop_map(|v| FaultCase::Args(v.into_iter().map(|s| Hex(s.as_bytes().to_vec())).collect())),
		]
		.boxed()
	}
	fn fixed(&self, _: Tier) -> Vec<FaultCase> {
		let mut v = vec![];
		let f = |n: &str, size| FileSpec { name: Hex(n.as_bytes().to_vec()), mode: 0o644, size, fill: 0 };
		let small = vec![f("a", 0), f("b c", 7), f("d", 1)];
		let len: u32 = small.iter().map(|f| f.header().len() as u32 + f.size + 1).sum();
		for dir in [false, true] {
			// Cut everywhere
			for k in 0..=len {
				v.push(FaultCase::Receive { dir, files: small.clone(), paths: 3, how: Mutation::Truncate(k), portions: Hex(vec![]) });
			}
			for size in [8191, 8192, 32767, 32768, 32769, 65536, 100_000] {
				let files = vec![f("big", size), f("x", 3)];
				let first = files[0].header().len() as u32 + size;
				for d in [0, 1, 2, size / 2, size - 1, size] {
					let how = Mutation::Truncate(first - d);
					v.push(FaultCase::Receive { dir, files: files.clone(), paths: 2, how, portions: Hex(vec![]) });
				}
				for b in [1, 2, 10, 67, 255] {
					v.push(FaultCase::Receive { dir, files: files.clone(), paths: 2, how: Mutation::Final(0, b), portions: Hex(vec![]) });
				}
			}
		}
		// Refuse or omit every acknowledgement
		for n in 0..7 {
			for byte in [None, Some(1), Some(2), Some(10), Some(48), Some(255)] {
				v.push(FaultCase::Refuse { files: small.clone(), n, byte, more: Hex(b"error\n".to_vec()) });
			}
		}
		v
	}
	fn max_shrink(&self) -> u32 {
		400
	}
	fn check(&self, c: &FaultCase) -> Verdict {
		c.run()
	}
}
