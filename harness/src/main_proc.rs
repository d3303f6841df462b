//! Checks of the programs nora_scp and nora_sshd (C24 - C29).
#![allow(dead_code)]
#[macro_use]
mod util;
mod auth;
mod gen;
mod hostile;
mod hs;
mod mem;
mod proc;
mod refcrypto;
mod rmsg;
mod runner;
mod sclient;
mod scp;
mod session;
mod sim;
mod sshd;
mod tclient;

fn main() {
	use scp::*;
	use sshd::*;
	if std::env::args_os().next().map_or(false, |a| std::path::Path::new(&a).file_name() == Some("h".as_ref())) {
		helper_main();
	}
	props!(C24, C25, C26, C27, C28, C29)
}
