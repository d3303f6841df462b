//! Conversions between reference messages and the library's types.
use crate::{rmsg::*, util::Hex};
use nora_ssh_core::{
	data::{AsciiStr, NameList},
	message::{
		self as m,
		channel::{self as ch, session as se},
		key_exchange::ecdh,
		userauth as ua, Message,
	},
};

// ---- the library's types ----

fn nl(b: &[u8]) -> NameList<'_> {
	NameList::try_from(b).unwrap_or_else(|e| panic!("name list {:?} refused: {:?}", b, e))
}
fn utf8(b: &[u8]) -> &str {
	std::str::from_utf8(b).expect("generator")
}

/// Give the library's value for a reference message to `f`.
///
/// Fails if the library refuses a legal name list or ASCII string.
pub fn with_nora<T>(r: &RMsg, f: impl FnOnce(&Message<'_>) -> T) -> Result<T, String> {
	use m::*;
	for (i, fl) in r.kind().fields.iter().enumerate() {
		if *fl == F::Names && r.kind != "ecdh_reply" {
			if NameList::try_from(r.s(i)).is_err() {
				return Err(format!("legal name list {:?} refused", Hex(r.s(i).into())));
			}
		}
	}
	let req = |method| {
		Message::UserAuth(UserAuth::Request(ua::Request { user: r.s(0), service: r.s(1), method }))
	};
	let chan = Message::Channel;
	let cookie: [u8; 16];
	let x = match &*r.kind {
		"disconnect" => Message::Disconnect(Disconnect {
			reason: r.u(0),
			description: r.s(1),
			language: r.s(2),
		}),
		"ignore" => Message::Ignore(Ignore { data: r.s(0) }),
		"unimplemented" => Message::Unimplemented(Unimplemented { sequence_number: r.u(0) }),
		"debug" => Message::Debug(Debug {
			always_display: r.b(0),
			message: utf8(r.s(1)),
			language: r.s(2),
		}),
		"service_request" => Message::ServiceRequest(ServiceRequest::new(r.s(0))),
		"service_accept" => Message::ServiceAccept(ServiceAccept::new(r.s(0))),
		"kexinit" => {
			cookie = r.s(0).try_into().unwrap();
			Message::KeyExchangeInit(KeyExchangeInit {
				cookie: &cookie,
				kex_algorithms: nl(r.s(1)),
				server_host_key_algorithms: nl(r.s(2)),
				encryption_algorithms_client_to_server: nl(r.s(3)),
				encryption_algorithms_server_to_client: nl(r.s(4)),
				mac_algorithms_client_to_server: nl(r.s(5)),
				mac_algorithms_server_to_client: nl(r.s(6)),
				compression_algorithms_client_to_server: nl(r.s(7)),
				compression_algorithms_server_to_client: nl(r.s(8)),
				languages_client_to_server: nl(r.s(9)),
				languages_server_to_client: nl(r.s(10)),
				first_kex_packet_follows: r.b(11),
			})
		}
		"newkeys" => Message::NewKeys(NewKeys),
		"ecdh_init" => {
			Message::KeyExchangeEcdhInit(KeyExchangeEcdhInit { client_ephermal_public_key: r.s(0) })
		}
		"ecdh_reply" => Message::KeyExchangeEcdhReply(KeyExchangeEcdhReply {
			server_public_key: ecdh::Key {
				name: r.s(0),
				blob: ecdh::KeyBlob { identifier: r.s(1), q: r.s(2) },
			},
			server_ephermal_public_key: r.s(3),
			exchange_hash_signature: ecdh::Signature {
				name: r.s(4),
				blob: ecdh::SignatureBlob { r: r.s(5), s: r.s(6) },
			},
		}),
		"ua_none" => req(ua::Method::None),
		"ua_pk_blob" => req(ua::Method::PublicKeyBlob { algorithm: r.s(2), blob: r.s(3) }),
		"ua_pk_signed" => req(ua::Method::PublicKeySigned {
			algorithm: r.s(2),
			key: r.s(3),
			signature: r.s(4),
		}),
		"ua_password" => req(ua::Method::Password { password: r.s(2) }),
		"ua_password_renew" => {
			req(ua::Method::PasswordRenew { old_password: r.s(2), new_password: r.s(3) })
		}
		"ua_hostbased" => req(ua::Method::HostBased {
			algorithm: r.s(2),
			key_and_certificates: r.s(3),
			host_name: AsciiStr::try_from(r.s(4)).map_err(|_| "legal ASCII string refused")?,
			user_name: utf8(r.s(5)),
			signature: r.s(6),
		}),
		"ua_other" => req(ua::Method::Other { method: r.s(2), data: r.s(3) }),
		"ua_failure" => Message::UserAuth(UserAuth::Failure(ua::Failure {
			alternative_methods: nl(r.s(0)),
			partial_success: r.b(1),
		})),
		"ua_success" => Message::UserAuth(UserAuth::Success(ua::Success)),
		"ua_banner" => Message::UserAuth(UserAuth::Banner(ua::Banner {
			message: r.s(0),
			language: r.s(1),
		})),
		"ua_pk_ok" => Message::UserAuth(UserAuth::PublicKeyOk(ua::PublicKeyOk {
			algorithm: r.s(0),
			blob: r.s(1),
		})),
		"open" => chan(Channel::Open(ch::Open {
			ty: r.s(0),
			sender_channel: r.u(1),
			window_size: r.u(2),
			max_packet_size: r.u(3),
		})),
		"open_confirmation" => chan(Channel::OpenConfirmation(ch::OpenConfirmation {
			recipient_channel: r.u(0),
			sender_channel: r.u(1),
			window_size: r.u(2),
			max_packet_size: r.u(3),
			data: r.s(4),
		})),
		"open_failure" => chan(Channel::OpenFailure(ch::OpenFailure {
			recipient_channel: r.u(0),
			reason: match r.u(1) {
				1 => ch::OpenFailureReason::AdminstrativelyProhibited,
				2 => ch::OpenFailureReason::ConnectFailed,
				3 => ch::OpenFailureReason::UnknownChannelType,
				4 => ch::OpenFailureReason::ResourceShortage,
				n => ch::OpenFailureReason::Other(n),
			},
			description: utf8(r.s(2)),
			language: r.s(3),
		})),
		"window_adjust" => chan(Channel::WindowAdjust(ch::WindowAdjust {
			recipient_channel: r.u(0),
			add_bytes: r.u(1),
		})),
		"data" => chan(Channel::Data(ch::Data { recipient_channel: r.u(0), data: r.s(1) })),
		"extended_data" => chan(Channel::ExtendedData(ch::ExtendedData {
			recipient_channel: r.u(0),
			ty: r.u(1),
			data: r.s(2),
		})),
		"eof" => chan(Channel::Eof(ch::Eof { recipient_channel: r.u(0) })),
		"close" => chan(Channel::Close(ch::Close { recipient_channel: r.u(0) })),
		"request" => chan(Channel::Request(ch::Request {
			recipient_channel: r.u(0),
			ty: r.s(1),
			want_reply: r.b(2),
			data: r.s(3),
		})),
		"success" => chan(Channel::Success(ch::Success { recipient_channel: r.u(0) })),
		"failure" => chan(Channel::Failure(ch::Failure { recipient_channel: r.u(0) })),
		k => panic!("kind {}", k),
	};
	Ok(f(&x))
}

fn lb<'a>(l: NameList<'a>) -> V {
	s(<&[u8]>::from(l))
}

pub fn from_nora(msg: Message<'_>) -> RMsg {
	use m::{Channel, UserAuth};
	let (k, v) = match msg {
		Message::Disconnect(d) => {
			("disconnect", vec![V::U(d.reason), s(d.description), s(d.language)])
		}
		Message::Ignore(d) => ("ignore", vec![s(d.data)]),
		Message::Unimplemented(d) => ("unimplemented", vec![V::U(d.sequence_number)]),
		Message::Debug(d) => {
			("debug", vec![V::B(d.always_display), s(d.message.as_bytes()), s(d.language)])
		}
		Message::ServiceRequest(d) => ("service_request", vec![s(<&[u8]>::from(d))]),
		Message::ServiceAccept(d) => ("service_accept", vec![s(<&[u8]>::from(d))]),
		Message::KeyExchangeInit(d) => (
			"kexinit",
			vec![
				s(d.cookie),
				lb(d.kex_algorithms),
				lb(d.server_host_key_algorithms),
				lb(d.encryption_algorithms_client_to_server),
				lb(d.encryption_algorithms_server_to_client),
				lb(d.mac_algorithms_client_to_server),
				lb(d.mac_algorithms_server_to_client),
				lb(d.compression_algorithms_client_to_server),
				lb(d.compression_algorithms_server_to_client),
				lb(d.languages_client_to_server),
				lb(d.languages_server_to_client),
				V::B(d.first_kex_packet_follows),
			],
		),
		Message::NewKeys(_) => ("newkeys", vec![]),
		Message::KeyExchangeEcdhInit(d) => ("ecdh_init", vec![s(d.client_ephermal_public_key)]),
		Message::KeyExchangeEcdhReply(d) => (
			"ecdh_reply",
			vec![
				s(d.server_public_key.name),
				s(d.server_public_key.blob.identifier),
				s(d.server_public_key.blob.q),
				s(d.server_ephermal_public_key),
				s(d.exchange_hash_signature.name),
				s(d.exchange_hash_signature.blob.r),
				s(d.exchange_hash_signature.blob.s),
			],
		),
		Message::UserAuth(UserAuth::Request(r)) => {
			let (k, mut v) = match r.method {
				ua::Method::None => ("ua_none", vec![]),
				ua::Method::PublicKeyBlob { algorithm, blob } => {
					("ua_pk_blob", vec![s(algorithm), s(blob)])
				}
				ua::Method::PublicKeySigned { algorithm, key, signature } => {
					("ua_pk_signed", vec![s(algorithm), s(key), s(signature)])
				}
				ua::Method::Password { password } => ("ua_password", vec![s(password)]),
				ua::Method::PasswordRenew { old_password, new_password } => {
					("ua_password_renew", vec![s(old_password), s(new_password)])
				}
				ua::Method::HostBased {
					algorithm,
					key_and_certificates,
					host_name,
					user_name,
					signature,
				} => (
					"ua_hostbased",
					vec![
						s(algorithm),
						s(key_and_certificates),
						s(<&[u8]>::from(host_name)),
						s(user_name.as_bytes()),
						s(signature),
					],
				),
				ua::Method::Other { method, data } => ("ua_other", vec![s(method), s(data)]),
			};
			let mut w = vec![s(r.user), s(r.service)];
			w.append(&mut v);
			(k, w)
		}
		Message::UserAuth(UserAuth::Failure(d)) => {
			("ua_failure", vec![lb(d.alternative_methods), V::B(d.partial_success)])
		}
		Message::UserAuth(UserAuth::Success(_)) => ("ua_success", vec![]),
		Message::UserAuth(UserAuth::Banner(d)) => ("ua_banner", vec![s(d.message), s(d.language)]),
		Message::UserAuth(UserAuth::PublicKeyOk(d)) => {
			("ua_pk_ok", vec![s(d.algorithm), s(d.blob)])
		}
		Message::Channel(c) => match c {
			Channel::Open(d) => (
				"open",
				vec![
					s(d.ty),
					V::U(d.sender_channel),
					V::U(d.window_size),
					V::U(d.max_packet_size),
				],
			),
			Channel::OpenConfirmation(d) => (
				"open_confirmation",
				vec![
					V::U(d.recipient_channel),
					V::U(d.sender_channel),
					V::U(d.window_size),
					V::U(d.max_packet_size),
					s(d.data),
				],
			),
			Channel::OpenFailure(d) => (
				"open_failure",
				vec![
					V::U(d.recipient_channel),
					V::U(match d.reason {
						ch::OpenFailureReason::AdminstrativelyProhibited => 1,
						ch::OpenFailureReason::ConnectFailed => 2,
						ch::OpenFailureReason::UnknownChannelType => 3,
						ch::OpenFailureReason::ResourceShortage => 4,
						// A code that has a name must not come without it.
						ch::OpenFailureReason::Other(n @ 1..=4) => 0xffff_0000 + n,
						ch::OpenFailureReason::Other(n) => n,
					}),
					s(d.description.as_bytes()),
					s(d.language),
				],
			),
			Channel::WindowAdjust(d) => {
				("window_adjust", vec![V::U(d.recipient_channel), V::U(d.add_bytes)])
			}
			Channel::Data(d) => ("data", vec![V::U(d.recipient_channel), s(d.data)]),
			Channel::ExtendedData(d) => {
				("extended_data", vec![V::U(d.recipient_channel), V::U(d.ty), s(d.data)])
			}
			Channel::Eof(d) => ("eof", vec![V::U(d.recipient_channel)]),
			Channel::Close(d) => ("close", vec![V::U(d.recipient_channel)]),
			Channel::Request(d) => (
				"request",
				vec![V::U(d.recipient_channel), s(d.ty), V::B(d.want_reply), s(d.data)],
			),
			Channel::Success(d) => ("success", vec![V::U(d.recipient_channel)]),
			Channel::Failure(d) => ("failure", vec![V::U(d.recipient_channel)]),
		},
	};
	RMsg::new(k, v)
}

/// RFC 4254 section 6.10
fn signal_to<'a>(b: &'a [u8]) -> se::Signal<'a> {
	use se::Signal::*;
	match b {
		b"ABRT" => Abort,
		b"ALRM" => Alarm,
		b"FPE" => FloatingPointException,
		b"HUP" => Hangup,
		b"ILL" => Illegal,
		b"INT" => Interrupt,
		b"KILL" => Kill,
		b"PIPE" => Pipe,
		b"QUIT" => Quit,
		b"SEGV" => SegmentationFault,
		b"TERM" => Terminate,
		b"USR1" => User1,
		b"USR2" => User2,
		b => Other(b),
	}
}
fn signal_from<'a>(x: se::Signal<'a>) -> &'a [u8] {
	use se::Signal::*;
	match x {
		Abort => b"ABRT",
		Alarm => b"ALRM",
		FloatingPointException => b"FPE",
		Hangup => b"HUP",
		Illegal => b"ILL",
		Interrupt => b"INT",
		Kill => b"KILL",
		Pipe => b"PIPE",
		Quit => b"QUIT",
		SegmentationFault => b"SEGV",
		Terminate => b"TERM",
		User1 => b"USR1",
		User2 => b"USR2",
		// A signal that has a name must not come without it.
		Other(b) if !matches!(signal_to(b), Other(_)) => b"(other)",
		Other(b) => b,
	}
}

pub fn to_session<'a>(r: &'a RMsg) -> se::SessionRequest<'a> {
	use se::SessionRequest as S;
	match &*r.kind {
		"pty-req" => S::Pty {
			terminal: r.s(0),
			char_width: r.u(1),
			char_height: r.u(2),
			pixel_width: r.u(3),
			pixel_height: r.u(4),
			modes: r.s(5),
		},
		"x11-req" => S::X11 {
			single_connection: r.b(0),
			auth_protocol: r.s(1),
			auth_cookie: r.s(2),
			screen: r.u(3),
		},
		"env" => S::Env { name: r.s(0), value: r.s(1) },
		"shell" => S::Shell,
		"exec" => S::Exec { command: r.s(0) },
		"subsystem" => S::Subsystem { name: r.s(0) },
		"window-change" => S::WindowChange {
			char_width: r.u(0),
			char_height: r.u(1),
			pixel_width: r.u(2),
			pixel_height: r.u(3),
		},
		"xon-xoff" => S::XonXoff { on: r.b(0) },
		"signal" => S::Signal { signal: signal_to(r.s(0)) },
		"exit-status" => S::ExitStatus { status: r.u(0) },
		"exit-signal" => S::ExitSignal {
			signal: signal_to(r.s(0)),
			core_dumped: r.b(1),
			message: utf8(r.s(2)),
			language: r.s(3),
		},
		k => panic!("kind {}", k),
	}
}

pub fn from_session(r: se::SessionRequest<'_>) -> RMsg {
	use se::SessionRequest as S;
	let (k, v) = match r {
		S::Pty { terminal, char_width, char_height, pixel_width, pixel_height, modes } => (
			"pty-req",
			vec![
				s(terminal),
				V::U(char_width),
				V::U(char_height),
				V::U(pixel_width),
				V::U(pixel_height),
				s(modes),
			],
		),
		S::X11 { single_connection, auth_protocol, auth_cookie, screen } => (
			"x11-req",
			vec![V::B(single_connection), s(auth_protocol), s(auth_cookie), V::U(screen)],
		),
		S::Env { name, value } => ("env", vec![s(name), s(value)]),
		S::Shell => ("shell", vec![]),
		S::Exec { command } => ("exec", vec![s(command)]),
		S::Subsystem { name } => ("subsystem", vec![s(name)]),
		S::WindowChange { char_width, char_height, pixel_width, pixel_height } => (
			"window-change",
			vec![V::U(char_width), V::U(char_height), V::U(pixel_width), V::U(pixel_height)],
		),
		S::XonXoff { on } => ("xon-xoff", vec![V::B(on)]),
		S::Signal { signal } => ("signal", vec![s(signal_from(signal))]),
		S::ExitStatus { status } => ("exit-status", vec![V::U(status)]),
		S::ExitSignal { signal, core_dumped, message, language } => (
			"exit-signal",
			vec![s(signal_from(signal)), V::B(core_dumped), s(message.as_bytes()), s(language)],
		),
	};
	RMsg::new(k, v)
}
