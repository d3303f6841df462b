//! Checks of nora_ssh's server (C10 - C23).
#![allow(dead_code)]
#[macro_use]
mod util;
mod auth;
mod gen;
mod hostile;
mod hs;
mod load;
mod mem;
mod refcrypto;
mod rmsg;
mod runner;
mod sclient;
mod session;
mod sim;
mod tclient;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
	use auth::*;
	use hostile::*;
	use hs::*;
	use load::*;
	use session::*;
	props!(C10, C11, C12, C13, C14, C15, C16, C23, C17, C18, C19, C20, C21, C22, C30, C31, C32)
}
