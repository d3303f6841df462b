//! Checks of nora_ssh_core (C01 - C09).
#![allow(dead_code)]
#[macro_use]
mod util;
mod core_props;
mod gen;
mod refcrypto;
mod rmsg;
mod rnora;
mod runner;

fn main() {
	use core_props::*;
	props!(C01, C02, C03, C04, C05, C06, C07, C08, C09)
}
