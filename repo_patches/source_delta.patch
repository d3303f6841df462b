From 9b536b17d952c34712e63229267033746cff220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:48 +0000
Subject: [PATCH 01/35] fix: reject packets that do not fit behind their length
 field

The plaintext packet reader compared the announced length with the whole
buffer although the body is stored behind the 4 byte length, so a length
within 4 bytes of the buffer size made it slice out of bounds and panic.
---
 nora_ssh/src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/packet.rs b/nora_ssh/src/packet.rs
index 439b092..34d42aa 100644
--- a/nora_ssh/src/packet.rs
+++ b/nora_ssh/src/packet.rs
@@ -13,7 +13,7 @@ pub async fn parse<'a, Io: AsyncReadExt + Unpin>(
 	let len = u32::from_be_bytes(buf[..4].try_into().unwrap())
 		.try_into()
 		.unwrap();
-	if len > buf.len() {
+	if len > buf.len() - 4 {
 		return Err(PacketParseError::TooLarge(len));
 	} else if len < 8 {
 		return Err(PacketParseError::TooSmall(len));
-- 
2.43.0


From 6dd799f379b16276c2c5bab24eced72b924281d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:48 +0000
Subject: [PATCH 02/35] fix: parse the host key of an ECDH reply

Key::parse required the data it had just handed to KeyBlob::parse to be
empty, so no ECDH reply could ever be parsed.
---
 nora_ssh_core/src/message/key_exchange/ecdh.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nora_ssh_core/src/message/key_exchange/ecdh.rs b/nora_ssh_core/src/message/key_exchange/ecdh.rs
index 3db86c9..563a293 100644
--- a/nora_ssh_core/src/message/key_exchange/ecdh.rs
+++ b/nora_ssh_core/src/message/key_exchange/ecdh.rs
@@ -78,8 +78,9 @@ pub struct Key<'a> {
 impl<'a> Key<'a> {
 	fn parse(data: &'a [u8]) -> Option<Self> {
 		let (name, data) = parse_string(data)?;
+		// KeyBlob::parse checks that nothing is left unread.
 		let blob = KeyBlob::parse(data)?;
-		data.is_empty().then(|| Self { name, blob })
+		Some(Self { name, blob })
 	}
 
 	fn serialize<'i>(&self, buf: &'i mut [u8]) -> Option<(usize, &'i mut [u8])> {
-- 
2.43.0


From 0b8bc34a5c33eff25feb036d2c1161d03d5be2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:48 +0000
Subject: [PATCH 03/35] fix: recognise the end of every line before the
 identification

Empty lines and lines that are a prefix of "SSH-" or end in more than one
CR were not recognised as ended, so the identification behind them was
skipped as well, and a line starting with "SSSH-" was taken for the
identification.
---
 nora_ssh/src/identifier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nora_ssh/src/identifier.rs b/nora_ssh/src/identifier.rs
index c45a942..7990168 100644
--- a/nora_ssh/src/identifier.rs
+++ b/nora_ssh/src/identifier.rs
@@ -30,11 +30,11 @@ where
 		state = match (state, b) {
 			(State::EolLf, b'S') => State::S,
 			(State::S, b'S') => State::SS,
-			(State::SS, b'S') => State::SS,
 			(State::SS, b'H') => State::SSH,
 			(State::SSH, b'-') => break,
-			(State::Ignore, b'\r') => State::EolCr,
 			(State::EolCr, b'\n') => State::EolLf,
+			// Any line, including an empty one, may end here.
+			(_, b'\r') => State::EolCr,
 			_ => State::Ignore,
 		};
 	}
-- 
2.43.0


From 8d6401445e431f2aa26dcd5b7e258841901389aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:27 +0000
Subject: [PATCH 04/35] fix: end the handshake instead of panicking on
 malformed key exchange messages

An unparsable or unexpected message in place of the ECDH init or NEWKEYS
message, or an ephermal key that is not 32 bytes long, took down the whole
server.
---
 nora_ssh/src/host.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 3ea0ae4..9a35566 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -197,11 +197,12 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		let client_ephermal_public = Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_kex_ecdh_init()
-			.unwrap()
+			.ok_or(HandleNewClientError::ExpectedKeyExchangeEcdhInit)?
 			.client_ephermal_public_key;
-		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public).unwrap();
+		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public)
+			.map_err(|_| HandleNewClientError::InvalidEphermalKey)?;
 		let client_ephermal_public = x25519_dalek::PublicKey::from(client_ephermal_public);
 
 		let server_public_key = self.host_key.public.to_encoded_point(false);
@@ -279,7 +280,7 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_new_keys()
 			.ok_or(HandleNewClientError::ExpectedKeys)?;
 
@@ -293,6 +294,8 @@ pub enum HandleNewClientError {
 	MessageParseError(MessageParseError),
 	PacketParseError(PacketParseError),
 	ExpectedKeyExchangeInit,
+	ExpectedKeyExchangeEcdhInit,
+	InvalidEphermalKey,
 	UnsupportedAlgorithms,
 	ExpectedKeys,
 	#[allow(dead_code)]
-- 
2.43.0


From 9689144317024298418edcc778df5517087535cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:28 +0000
Subject: [PATCH 05/35] fix: abort the key exchange if the shared secret is
 all-zero

RFC 8731 section 3 and RFC 7748 section 6.1: an ephermal key of small order
forces a known shared secret and MUST be rejected.
---
 nora_ssh/src/host.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 9a35566..646b3cf 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -221,6 +221,10 @@ impl Host<p256::NistP256> {
 			.update(client_ephermal_public.as_bytes())
 			.update(server_ephermal_public.as_bytes());
 		let shared_secret = server_ephermal_secret.diffie_hellman(&client_ephermal_public);
+		// RFC 8731: abort if the shared secret is all-zero.
+		if !shared_secret.was_contributory() {
+			return Err(HandleNewClientError::InvalidEphermalKey);
+		}
 		let hash = exchange_hash.update(shared_secret.as_bytes());
 		let sig = self.host_key.secret.sign(&hash);
 
-- 
2.43.0


From 666ad961625793acfdda064b3631e8655a35f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:30 +0000
Subject: [PATCH 06/35] fix: send a random key exchange cookie

RFC 4253 section 7.1: the cookie MUST be a random value. With a constant
cookie the server's key exchange init is the same for every connection.
---
 nora_ssh/src/host.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 646b3cf..80de1ed 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -112,6 +112,8 @@ impl Host<p256::NistP256> {
 		identifier::send(self.identifier, write)
 			.await
 			.map_err(HandleNewClientError::Write)?;
+		let mut cookie = [0; 16];
+		rng.fill_bytes(&mut cookie);
 		let mut host_pkt = [0; 256];
 		let host_pkt = Packet::wrap(
 			&mut host_pkt,
@@ -119,7 +121,7 @@ impl Host<p256::NistP256> {
 			true,
 			|buf| {
 				Message::KeyExchangeInit(KeyExchangeInit {
-					cookie: b"nomnommunchmunch",
+					cookie: &cookie,
 					kex_algorithms: b"curve25519-sha256".try_into().unwrap(),
 					server_host_key_algorithms: b"ecdsa-sha2-nistp256".try_into().unwrap(),
 					encryption_algorithms_client_to_server: b"chacha20-poly1305@openssh.com"
-- 
2.43.0


From b6e4c8280afc95d3155b48c4c5e4b80113cb6d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:31 +0000
Subject: [PATCH 07/35] fix: ignore the packet following a wrong key exchange
 guess

RFC 4253 section 7.1: if first_kex_packet_follows is set and the guess was
wrong the following packet MUST be ignored. It was processed instead, and
the client's packets were off by one from then on.
---
 nora_ssh/src/host.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 80de1ed..d6b3494 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -13,6 +13,7 @@ use futures::io::{self, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
 use generic_array::ArrayLength;
 use nora_ssh_core::{
 	cipher::{ChaCha20Poly1305, Cipher, Error, CIPHER_NAMES},
+	data::NameList,
 	identifier::Identifier,
 	key_exchange::{Direction, KeyMaterial, ALGORITHM_NAMES},
 	message::{
@@ -190,6 +191,22 @@ impl Host<p256::NistP256> {
 			return Err(HandleNewClientError::UnsupportedAlgorithms);
 		}
 
+		// KEXINIT, ECDH init & NEWKEYS
+		let mut packets_received = 3;
+
+		// If the client guessed the algorithms wrong the packet it sent based on that guess
+		// must be ignored.
+		let preferred = |list: NameList<'_>, name| list.iter().next() == Some(name);
+		if msg.first_kex_packet_follows
+			&& !(preferred(msg.kex_algorithms, ALGORITHM_NAMES[0])
+				&& preferred(msg.server_host_key_algorithms, self.host_key.name()))
+		{
+			packet::parse(&mut pkt_buf, read, true, BlockSize::B8)
+				.await
+				.map_err(HandleNewClientError::PacketParseError)?;
+			packets_received += 1;
+		}
+
 		// Generate temporary key for exchanging the secret
 		let server_ephermal_secret = x25519_dalek::EphemeralSecret::new(&mut rng);
 		let server_ephermal_public = x25519_dalek::PublicKey::from(&server_ephermal_secret);
@@ -262,7 +279,7 @@ impl Host<p256::NistP256> {
 		let receive_cipher = In(ChaCha20Poly1305::from_key_material(
 			&key_material,
 			Direction::ClientToServer,
-			3,
+			packets_received,
 		));
 		let send_cipher = Out(ChaCha20Poly1305::from_key_material(
 			&key_material,
-- 
2.43.0


From a4369db40c68d67cd4b136d7e0bea578f6081af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:48 +0000
Subject: [PATCH 08/35] fix: end the connection instead of panicking on bad
 messages before authentication

An unparsable, unexpected or incomplete message, a request for an unknown
service or a broken connection between key exchange and authentication
took down the whole server.
---
 nora_ssh/src/server.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 0234c21..ce498f5 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -101,9 +101,9 @@ where
 		let mut pkt_buf_mini = [0; 256];
 
 		// Wait for userauth
-		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.unwrap();
-		let msg = Message::parse(data).unwrap();
-		let srv = <&[u8]>::from(msg.into_service_request().unwrap());
+		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
+		let msg = Message::parse(data).map_err(|_| ())?;
+		let srv = <&[u8]>::from(msg.into_service_request().ok_or(())?);
 		match srv {
 			b"ssh-userauth" => {
 				let msg = Message::ServiceAccept(msg::ServiceAccept::new(srv));
@@ -115,9 +115,9 @@ where
 						&mut rng,
 					)
 					.await
-					.unwrap();
+					.map_err(|_| ())?;
 			}
-			_ => todo!(),
+			_ => return Err(()),
 		}
 
 		// Attempt authentication
@@ -126,7 +126,7 @@ where
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
 			let msg = Message::parse(data).map_err(|_| ())?;
-			let ua = msg.into_user_auth().unwrap().into_request().ok_or(())?;
+			let ua = msg.into_user_auth().ok_or(())?.into_request().ok_or(())?;
 
 			let auth = match ua.method {
 				Method::None => Auth::None,
@@ -160,7 +160,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					continue;
 				}
 				Method::PublicKeySigned { algorithm, key: key_blob, signature } => {
@@ -212,7 +212,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					return Ok(Client {
 						read: RefCell::new((rd, rd_enc)),
 						write: LocalMutex::new((wr, wr_enc)),
@@ -234,7 +234,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 				}
 			}
 		}
-- 
2.43.0


From 5e8113978b72c5cd006553cf1c6ef0b2c7c9de48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:51 +0000
Subject: [PATCH 09/35] fix: answer unsupported authentication requests with a
 failure

RFC 4252 section 5.1: a request that is not supported is answered with
SSH_MSG_USERAUTH_FAILURE so the client can continue with another method.
Methods other than none, publickey and password panicked, and keys that
are not a single string (e.g. ECDSA or RSA keys) ended the connection.
---
 nora_ssh/src/server.rs | 87 ++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 46 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index ce498f5..b14ec66 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -129,29 +129,23 @@ where
 			let ua = msg.into_user_auth().ok_or(())?.into_request().ok_or(())?;
 
 			let auth = match ua.method {
-				Method::None => Auth::None,
+				Method::None => Some(Auth::None),
 				Method::PublicKeyBlob { algorithm, blob } => {
-					let (a, b) = data::parse_string(blob).ok_or(())?;
-					let (key, b) = data::parse_string(b).ok_or(())?;
-					if !b.is_empty() {
-						return Err(());
-					}
-					if algorithm != a {
-						return Err(());
-					}
-					let msg = Message::UserAuth(
-						match self
-							.handlers
-							.public_key_exists(ua.user, ua.service, algorithm, key)
-							.await
-						{
-							Ok(()) => UserAuth::PublicKeyOk(PublicKeyOk { algorithm, blob }),
-							Err(()) => UserAuth::Failure(Failure {
-								alternative_methods: b"publickey,password".try_into().unwrap(),
-								partial_success: false,
-							}),
-						},
-					);
+					let exists = match parse_blob(algorithm, blob) {
+						Some(key) => {
+							self.handlers
+								.public_key_exists(ua.user, ua.service, algorithm, key)
+								.await
+						}
+						None => Err(()),
+					};
+					let msg = Message::UserAuth(match exists {
+						Ok(()) => UserAuth::PublicKeyOk(PublicKeyOk { algorithm, blob }),
+						Err(()) => UserAuth::Failure(Failure {
+							alternative_methods: b"publickey,password".try_into().unwrap(),
+							partial_success: false,
+						}),
+					});
 					wr_enc
 						.send(
 							&mut pkt_buf_mini,
@@ -164,24 +158,6 @@ where
 					continue;
 				}
 				Method::PublicKeySigned { algorithm, key: key_blob, signature } => {
-					let (a, b) = data::parse_string(key_blob).ok_or(())?;
-					let (key, b) = data::parse_string(b).ok_or(())?;
-					if !b.is_empty() {
-						return Err(());
-					}
-					if algorithm != a {
-						return Err(());
-					}
-
-					let (a, b) = data::parse_string(signature).ok_or(())?;
-					let (signature, b) = data::parse_string(b).ok_or(())?;
-					if !b.is_empty() {
-						return Err(());
-					}
-					if algorithm != a {
-						return Err(());
-					}
-
 					let message = msg::userauth::format_sign_data(
 						&mut message,
 						&session_identifier,
@@ -192,15 +168,27 @@ where
 					)
 					.unwrap_or_else(|| todo!());
 
-					Auth::PublicKey { algorithm, signature, key, message }
+					parse_blob(algorithm, key_blob)
+						.zip(parse_blob(algorithm, signature))
+						.map(|(key, signature)| Auth::PublicKey {
+							algorithm,
+							signature,
+							key,
+							message,
+						})
+				}
+				Method::Password { password } => Some(Auth::Password(password)),
+				// Not supported
+				Method::PasswordRenew { .. } | Method::HostBased { .. } | Method::Other { .. } => {
+					None
 				}
-				Method::Password { password } => Auth::Password(password),
-				Method::PasswordRenew { .. } => todo!(),
-				Method::HostBased { .. } => todo!(),
-				Method::Other { .. } => todo!(),
 			};
 
-			match self.handlers.authenticate(ua.user, ua.service, auth).await {
+			let result = match auth {
+				Some(auth) => self.handlers.authenticate(ua.user, ua.service, auth).await,
+				None => Err(()),
+			};
+			match result {
 				Ok(user) => {
 					// Accept
 					let msg = Message::UserAuth(UserAuth::Success(Success));
@@ -241,6 +229,13 @@ where
 	}
 }
 
+/// Get the value of a key or signature blob if it is of the given algorithm.
+fn parse_blob<'a>(algorithm: &[u8], blob: &'a [u8]) -> Option<&'a [u8]> {
+	let (name, rest) = data::parse_string(blob)?;
+	let (value, rest) = data::parse_string(rest)?;
+	(name == algorithm && rest.is_empty()).then(|| value)
+}
+
 struct Client<Handlers>
 where
 	Handlers: ServerHandlers,
-- 
2.43.0


From dd5bb593adc8721e8929a91784bf4d525f1bcde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:52 +0000
Subject: [PATCH 10/35] fix: make room for the largest authentication requests

A public key request of which the echoed key does not fit in 256 bytes or
the data to sign does not fit in 1024 bytes took down the whole server.
Size both buffers by the largest request that can be received.
---
 nora_ssh/src/server.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index b14ec66..daeaca6 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -98,7 +98,9 @@ where
 
 		let mut pkt_buf = Vec::new();
 		pkt_buf.resize(35000, 0);
-		let mut pkt_buf_mini = [0; 256];
+		// Replies to a public key request echo the key and hence may be as large as the request.
+		let mut reply_buf = Vec::new();
+		reply_buf.resize(35000, 0);
 
 		// Wait for userauth
 		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
@@ -109,7 +111,7 @@ where
 				let msg = Message::ServiceAccept(msg::ServiceAccept::new(srv));
 				wr_enc
 					.send(
-						&mut pkt_buf_mini,
+						&mut reply_buf,
 						|buf| msg.serialize(buf).unwrap().0.len(),
 						&mut wr,
 						&mut rng,
@@ -121,7 +123,9 @@ where
 		}
 
 		// Attempt authentication
-		let mut message = [0; 1024];
+		// The message includes the session identifier and some of the request.
+		let mut message = Vec::new();
+		message.resize(4 + session_identifier.len() + 35000, 0);
 		loop {
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
@@ -148,7 +152,7 @@ where
 					});
 					wr_enc
 						.send(
-							&mut pkt_buf_mini,
+							&mut reply_buf,
 							|buf| msg.serialize(buf).unwrap().0.len(),
 							&mut wr,
 							&mut rng,
@@ -166,7 +170,7 @@ where
 						algorithm,
 						key_blob,
 					)
-					.unwrap_or_else(|| todo!());
+					.ok_or(())?;
 
 					parse_blob(algorithm, key_blob)
 						.zip(parse_blob(algorithm, signature))
-- 
2.43.0


From d6bbccce482a7a04224b0a35e1670ed4a07317d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:54 +0000
Subject: [PATCH 11/35] fix: accept ignore, debug and unimplemented messages
 during authentication

RFC 4253 section 11: these may be sent at any time and MUST NOT end the
connection.
---
 nora_ssh/src/server.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index daeaca6..eb567fb 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -103,8 +103,13 @@ where
 		reply_buf.resize(35000, 0);
 
 		// Wait for userauth
-		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
-		let msg = Message::parse(data).map_err(|_| ())?;
+		let msg = loop {
+			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
+			match Message::parse(data).map_err(|_| ())? {
+				Message::Ignore(_) | Message::Debug(_) | Message::Unimplemented(_) => {}
+				msg => break msg,
+			}
+		};
 		let srv = <&[u8]>::from(msg.into_service_request().ok_or(())?);
 		match srv {
 			b"ssh-userauth" => {
@@ -129,7 +134,10 @@ where
 		loop {
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
-			let msg = Message::parse(data).map_err(|_| ())?;
+			let msg = match Message::parse(data).map_err(|_| ())? {
+				Message::Ignore(_) | Message::Debug(_) | Message::Unimplemented(_) => continue,
+				msg => msg,
+			};
 			let ua = msg.into_user_auth().ok_or(())?.into_request().ok_or(())?;
 
 			let auth = match ua.method {
-- 
2.43.0


From 3d915e197c69426617a49662a9aa40f0d422cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:53 +0000
Subject: [PATCH 12/35] fix: end the connection or refuse the request instead
 of panicking in a session

A message that can't be parsed or isn't expected, a message for a channel
that does not exist, a request that is not supported or that the handlers
refuse, window adjustments, input for a program that does not take any and
broken program streams took down the whole server and all its clients.

Unsupported requests are refused as per RFC 4254 section 5.4.
---
 nora_ssh/src/server.rs | 123 +++++++++++++++++------------------------
 1 file changed, 52 insertions(+), 71 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index eb567fb..ee84e7c 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -19,7 +19,7 @@ use nora_ssh_core::{
 	cipher::{ChaCha20Poly1305, Cipher},
 	data,
 	identifier::Identifier,
-	message::{self as msg, channel::session::SessionRequest, Message},
+	message::{self as msg, channel::session::SessionRequest, Message, MessageParseError},
 };
 use rand::{CryptoRng, RngCore, SeedableRng};
 use subtle::CtOption;
@@ -303,7 +303,8 @@ where
 			channel: u32,
 		) -> (Io, [u8; 256], usize, u32) {
 			let mut buf = [0; 256];
-			let l = io.read(&mut buf).await.unwrap();
+			// There is nothing to read anymore if the stream is broken.
+			let l = io.read(&mut buf).await.unwrap_or(0);
 			(io, buf, l, channel)
 		}
 		let mut buf = Vec::new();
@@ -367,7 +368,7 @@ where
 		let (rd, enc) = &mut *read;
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
-			match Message::parse(data).unwrap() {
+			match Message::parse(data).map_err(ReceiveError::Message)? {
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
@@ -389,39 +390,26 @@ where
 				}
 				Message::Channel(msg::Channel::Request(r)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(r.recipient_channel).unwrap();
+					let ch = channels
+						.get_mut(r.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?;
 					// TODO check if the channel is actually a session channel
-					let req = match SessionRequest::parse(r.ty, r.data) {
-						Err(_) => todo!(),
-						Ok(r) => r,
+					let ty = match SessionRequest::parse(r.ty, r.data) {
+						Ok(SessionRequest::Shell) => Some(SpawnType::Shell),
+						Ok(SessionRequest::Exec { command }) => Some(SpawnType::Exec { command }),
+						// Not supported
+						_ => None,
 					};
-					let (msg, stdout, stderr, wait) = match req {
-						SessionRequest::Shell => {
-							let io = server
-								.handlers
-								.spawn(&mut *self.user.borrow_mut(), SpawnType::Shell, &[])
-								.await
-								.unwrap();
-							ch.stdin = io.stdin;
-							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
-							)
-						}
-						SessionRequest::Exec { command } => {
-							let io = server
-								.handlers
-								.spawn(
-									&mut *self.user.borrow_mut(),
-									SpawnType::Exec { command },
-									&[],
-								)
-								.await
-								.unwrap();
+					let io = match ty {
+						Some(ty) => server
+							.handlers
+							.spawn(&mut *self.user.borrow_mut(), ty, &[])
+							.await
+							.ok(),
+						None => None,
+					};
+					let (msg, stdout, stderr, wait) = match io {
+						Some(io) => {
 							ch.stdin = io.stdin;
 							(
 								Message::Channel(msg::Channel::Success(msg::channel::Success {
@@ -432,16 +420,7 @@ where
 								Some(io.wait),
 							)
 						}
-						SessionRequest::Pty { .. } => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
-								recipient_channel: ch.peer_channel,
-							})),
-							None,
-							None,
-							None,
-						),
-						SessionRequest::X11 { .. } => todo!(),
-						SessionRequest::Env { .. } => (
+						None => (
 							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
 								recipient_channel: ch.peer_channel,
 							})),
@@ -449,12 +428,6 @@ where
 							None,
 							None,
 						),
-						SessionRequest::Subsystem { .. } => todo!(),
-						SessionRequest::WindowChange { .. } => todo!(),
-						SessionRequest::XonXoff { .. } => todo!(),
-						SessionRequest::Signal { .. } => todo!(),
-						SessionRequest::ExitStatus { .. } => todo!(),
-						SessionRequest::ExitSignal { .. } => todo!(),
 					};
 					let channel = ch.peer_channel;
 					drop(channels);
@@ -477,39 +450,44 @@ where
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(d.recipient_channel).unwrap();
-					ch.stdin.as_mut().unwrap().write(d.data).await.unwrap();
+					let ch = channels
+						.get_mut(d.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?;
+					if let Some(stdin) = ch.stdin.as_mut() {
+						if stdin.write(d.data).await.is_err() {
+							// The program doesn't accept any more input.
+							ch.stdin.take();
+						}
+					}
 				}
-				Message::Channel(msg::Channel::ExtendedData(_)) => todo!(),
+				// No extended data is defined for this direction.
+				Message::Channel(msg::Channel::ExtendedData(_)) => {}
 				Message::Channel(msg::Channel::Eof(e)) => {
 					self.channels
 						.borrow_mut()
 						.get_mut(e.recipient_channel)
-						.unwrap()
+						.ok_or(ReceiveError::UnknownChannel)?
 						.stdin
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					self.channels.borrow_mut().remove(c.recipient_channel);
 				}
-				Message::Channel(msg::Channel::OpenConfirmation(_)) => todo!(),
-				Message::Channel(msg::Channel::OpenFailure(_)) => todo!(),
-				Message::Channel(msg::Channel::WindowAdjust(_)) => todo!(),
-				Message::Channel(msg::Channel::Success(_)) => todo!(),
-				Message::Channel(msg::Channel::Failure(_)) => todo!(),
+				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
 				Message::Disconnect(_) => return Ok(Action::Exit),
-				Message::Ignore(_) => {}
-				Message::Unimplemented(_) => todo!(),
-				Message::Debug(_) => todo!(),
-				Message::KeyExchangeInit(_) => todo!(),
-				Message::KeyExchangeEcdhInit(_) => todo!(),
-				Message::KeyExchangeEcdhReply(_) => todo!(),
-				Message::NewKeys(_) => todo!(),
-				Message::ServiceRequest(req) => {
-					todo!("{:?}", core::str::from_utf8(req.into()))
-				}
-				Message::ServiceAccept(_) => todo!(),
-				Message::UserAuth(_) => todo!(),
+				Message::Ignore(_) | Message::Unimplemented(_) | Message::Debug(_) => {}
+				// RFC 4252 section 5.1: requests after authentication are silently ignored.
+				Message::UserAuth(_) => {}
+				Message::Channel(msg::Channel::OpenConfirmation(_))
+				| Message::Channel(msg::Channel::OpenFailure(_))
+				| Message::Channel(msg::Channel::Success(_))
+				| Message::Channel(msg::Channel::Failure(_))
+				| Message::KeyExchangeInit(_)
+				| Message::KeyExchangeEcdhInit(_)
+				| Message::KeyExchangeEcdhReply(_)
+				| Message::NewKeys(_)
+				| Message::ServiceRequest(_)
+				| Message::ServiceAccept(_) => return Err(ReceiveError::UnexpectedMessage),
 			}
 		}
 	}
@@ -565,6 +543,9 @@ pub enum ReceiveError {
 	In(InError),
 	Out(OutError),
 	Io(io::Error),
+	Message(MessageParseError),
+	UnknownChannel,
+	UnexpectedMessage,
 }
 
 #[cfg_attr(not(feature = "no_send"), async_trait::async_trait)]
-- 
2.43.0


From 019da62ff30cbd2ab244325449862af206ab3914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:55 +0000
Subject: [PATCH 13/35] fix: write all input to the program

A program that accepted only a part of the data of a single message never
got the rest of it.
---
 nora_ssh/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index ee84e7c..16ae08d 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -454,7 +454,7 @@ where
 						.get_mut(d.recipient_channel)
 						.ok_or(ReceiveError::UnknownChannel)?;
 					if let Some(stdin) = ch.stdin.as_mut() {
-						if stdin.write(d.data).await.is_err() {
+						if stdin.write_all(d.data).await.is_err() {
 							// The program doesn't accept any more input.
 							ch.stdin.take();
 						}
-- 
2.43.0


From 326b1a63ea61127119f41f6e841c5667f43cd246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:47 +0000
Subject: [PATCH 14/35] fix: do not abandon a partially received packet when a
 program produces output

The future receiving from the client was dropped and created anew whenever
a program produced output or exited. Anything it had received of an
incomplete packet, or not yet sent of a reply, was lost, after which the
connection was out of sync.

Keep the future and serve the programs next to it. The lock on the sending
half is now contended, so make sure it wakes a waiter which lost the race
for the lock again, and does not waste a wakeup on one that is gone.
---
 nora_ssh/src/server.rs | 157 ++++++++++++++++++++++++++---------------
 nora_ssh/src/sync.rs   |  25 +++----
 2 files changed, 111 insertions(+), 71 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 16ae08d..97017db 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -11,8 +11,8 @@ use elliptic_curve::{
 	Curve, Scalar,
 };
 use futures::{
-	io, select, stream::FuturesUnordered, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt,
-	FutureExt, StreamExt,
+	io, pin_mut, select, stream::FuturesUnordered, try_join, AsyncRead, AsyncReadExt, AsyncWrite,
+	AsyncWriteExt, FutureExt, StreamExt,
 };
 use generic_array::ArrayLength;
 use nora_ssh_core::{
@@ -295,67 +295,110 @@ where
 	}
 
 	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
-		let mut stdout_inputs = FuturesUnordered::new();
-		let mut stderr_inputs = FuturesUnordered::new();
-		let mut wait_exit = FuturesUnordered::new();
-		async fn read<Io: AsyncRead + Unpin>(
-			mut io: Io,
-			channel: u32,
-		) -> (Io, [u8; 256], usize, u32) {
-			let mut buf = [0; 256];
-			// There is nothing to read anymore if the stream is broken.
-			let l = io.read(&mut buf).await.unwrap_or(0);
-			(io, buf, l, channel)
-		}
+		let mut programs = FuturesUnordered::new();
 		let mut buf = Vec::new();
 		buf.resize(35000, 0);
 		loop {
-			select! {
-				ret = self.receive(&mut buf, server).fuse() => match ret {
-					Ok(Action::Exit) => return Ok(()),
-					Ok(Action::NewIo { stdout, stderr, wait, channel }) => {
-						if let Some(stdout) = stdout {
-							stdout_inputs.push(read(stdout, channel));
-						}
-						if let Some(stderr) = stderr {
-							stderr_inputs.push(read(stderr, channel));
-						}
-						wait_exit.push(async move { (wait.await, channel) });
-					}
-					Err(e) => return Err(e),
-				},
-				(stdout, data, l, channel) = stdout_inputs.select_next_some() => {
-					if l > 0 {
-						stdout_inputs.push(read(stdout, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
-					} else {
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Eof(msg::channel::Eof {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Close(msg::channel::Close {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-					}
-				},
-				(stderr, data, l, channel) = stderr_inputs.select_next_some() => {
-					if l > 0 {
-						stderr_inputs.push(read(stderr, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
+			// Dropping this future before it is done would lose a partially received packet or
+			// leave a partially sent one behind, so keep it while serving programs.
+			let receive = self.receive(&mut buf, server).fuse();
+			pin_mut!(receive);
+			let action = loop {
+				select! {
+					ret = receive => break ret?,
+					ret = programs.select_next_some() => {
+						Result::<(), OutError>::map_err(ret, ReceiveError::Out)?
 					}
-				},
-				(status, channel) = wait_exit.select_next_some() => {
-					let mut data = [0; 256];
-					let (ty, l) = SessionRequest::ExitStatus {
-						status,
-					}.serialize(&mut data).unwrap();
-					self.send(&mut buf, |buf| Message::Channel(msg::Channel::Request(msg::channel::Request {
-						recipient_channel: channel,
-						ty,
-						data: &data[..l],
-						want_reply: false,
-					})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
 				}
+			};
+			match action {
+				Action::Exit => return Ok(()),
+				Action::NewIo { stdout, stderr, wait, channel } => {
+					programs.push(self.serve_program(stdout, stderr, wait, channel));
+				}
+			}
+		}
+	}
+
+	/// Forward the output and exit status of a program.
+	async fn serve_program(
+		&self,
+		stdout: Option<Handlers::Stdout>,
+		stderr: Option<Handlers::Stderr>,
+		wait: Pin<Box<dyn Future<Output = u32>>>,
+		channel: u32,
+	) -> Result<(), OutError> {
+		let stdout = async {
+			if let Some(stdout) = stdout {
+				self.forward_output(stdout, channel).await?;
+				let mut buf = [0; 64];
+				self.send(&mut buf, |buf| {
+					Message::Channel(msg::Channel::Eof(msg::channel::Eof {
+						recipient_channel: channel,
+					}))
+					.serialize(buf)
+					.unwrap()
+					.0
+					.len()
+				})
+				.await?;
+				self.send(&mut buf, |buf| {
+					Message::Channel(msg::Channel::Close(msg::channel::Close {
+						recipient_channel: channel,
+					}))
+					.serialize(buf)
+					.unwrap()
+					.0
+					.len()
+				})
+				.await?;
+			}
+			Ok(())
+		};
+		let stderr = async {
+			match stderr {
+				Some(stderr) => self.forward_output(stderr, channel).await,
+				None => Ok(()),
+			}
+		};
+		let exit = async {
+			let status = wait.await;
+			let mut data = [0; 16];
+			let (ty, l) = SessionRequest::ExitStatus { status }
+				.serialize(&mut data)
+				.unwrap();
+			self.send(&mut [0; 128], |buf| {
+				Message::Channel(msg::Channel::Request(msg::channel::Request {
+					recipient_channel: channel,
+					ty,
+					data: &data[..l],
+					want_reply: false,
+				}))
+				.serialize(buf)
+				.unwrap()
+				.0
+				.len()
+			})
+			.await
+		};
+		try_join!(stdout, stderr, exit).map(|_| ())
+	}
+
+	/// Forward the output of a program until there is no more.
+	async fn forward_output<Io: AsyncRead + Unpin>(
+		&self,
+		mut io: Io,
+		channel: u32,
+	) -> Result<(), OutError> {
+		let mut data = [0; 256];
+		let mut buf = [0; 512];
+		loop {
+			// There is nothing to read anymore if the stream is broken.
+			let l = io.read(&mut data).await.unwrap_or(0);
+			if l == 0 {
+				return Ok(());
 			}
+			self.send_channel(&mut buf, channel, &data[..l]).await?;
 		}
 	}
 
diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 4e7aff5..4f0d5f6 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -17,39 +17,35 @@ impl<T> LocalMutex<T> {
 	}
 
 	pub fn lock(&self) -> LocalMutexGuardFuture<'_, T> {
-		LocalMutexGuardFuture { inner: self, registered: false }
+		LocalMutexGuardFuture { inner: self }
 	}
 
 	fn push_waker(&self, waker: Waker) {
 		let mut q = self.queue.take();
-		q.push(waker);
+		if !q.iter().any(|w| w.will_wake(&waker)) {
+			q.push(waker);
+		}
 		self.queue.set(q);
 	}
 
-	fn pop_waker(&self) -> Option<Waker> {
-		let mut q = self.queue.take();
-		let w = q.pop();
-		self.queue.set(q);
-		w
+	fn wake_all(&self) {
+		self.queue.take().into_iter().for_each(Waker::wake);
 	}
 }
 
 pub struct LocalMutexGuardFuture<'a, T> {
 	inner: &'a LocalMutex<T>,
-	registered: bool,
 }
 
 impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
 	type Output = LocalMutexGuard<'a, T>;
 
-	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
 		match self.inner.inner.try_borrow_mut() {
 			Ok(lock) => Poll::Ready(LocalMutexGuard { inner: self.inner, lock }),
 			Err(_) => {
-				if !self.registered {
-					self.inner.push_waker(cx.waker().clone());
-					self.registered = true;
-				}
+				// Another task may be faster when the lock is released, so register every time.
+				self.inner.push_waker(cx.waker().clone());
 				Poll::Pending
 			}
 		}
@@ -77,6 +73,7 @@ impl<'a, T> DerefMut for LocalMutexGuard<'a, T> {
 
 impl<'a, T> Drop for LocalMutexGuard<'a, T> {
 	fn drop(&mut self) {
-		self.inner.pop_waker().map(|w| w.wake());
+		// Wake all waiters, as some may have been dropped or moved to another task.
+		self.inner.wake_all();
 	}
 }
-- 
2.43.0


From f547f552fc4b11e11dcc9eaf5e4b7d8399608f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:49 +0000
Subject: [PATCH 15/35] fix: send the error output of a program as extended
 data

RFC 4254 section 5.2. It was sent as if it were regular output, which the
client can't tell apart.
---
 nora_ssh/src/server.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 97017db..31b6da7 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -24,6 +24,9 @@ use nora_ssh_core::{
 use rand::{CryptoRng, RngCore, SeedableRng};
 use subtle::CtOption;
 
+/// RFC 4254 section 5.2: `SSH_EXTENDED_DATA_STDERR`
+const EXTENDED_DATA_STDERR: u32 = 1;
+
 pub struct Server<Handlers>
 where
 	Handlers: ServerHandlers,
@@ -284,12 +287,17 @@ where
 		&self,
 		buf: &mut [u8],
 		channel: u32,
+		extended: Option<u32>,
 		data: &[u8],
 	) -> Result<(), OutError> {
-		let msg = Message::Channel(msg::Channel::Data(msg::channel::Data {
-			recipient_channel: channel,
-			data,
-		}));
+		let msg = Message::Channel(match extended {
+			None => msg::Channel::Data(msg::channel::Data { recipient_channel: channel, data }),
+			Some(ty) => msg::Channel::ExtendedData(msg::channel::ExtendedData {
+				recipient_channel: channel,
+				ty,
+				data,
+			}),
+		});
 		self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
 			.await
 	}
@@ -330,7 +338,7 @@ where
 	) -> Result<(), OutError> {
 		let stdout = async {
 			if let Some(stdout) = stdout {
-				self.forward_output(stdout, channel).await?;
+				self.forward_output(stdout, None, channel).await?;
 				let mut buf = [0; 64];
 				self.send(&mut buf, |buf| {
 					Message::Channel(msg::Channel::Eof(msg::channel::Eof {
@@ -357,7 +365,10 @@ where
 		};
 		let stderr = async {
 			match stderr {
-				Some(stderr) => self.forward_output(stderr, channel).await,
+				Some(stderr) => {
+					self.forward_output(stderr, Some(EXTENDED_DATA_STDERR), channel)
+						.await
+				}
 				None => Ok(()),
 			}
 		};
@@ -388,6 +399,7 @@ where
 	async fn forward_output<Io: AsyncRead + Unpin>(
 		&self,
 		mut io: Io,
+		extended: Option<u32>,
 		channel: u32,
 	) -> Result<(), OutError> {
 		let mut data = [0; 256];
@@ -398,7 +410,8 @@ where
 			if l == 0 {
 				return Ok(());
 			}
-			self.send_channel(&mut buf, channel, &data[..l]).await?;
+			self.send_channel(&mut buf, channel, extended, &data[..l])
+				.await?;
 		}
 	}
 
-- 
2.43.0


From 9d690c22667d0408e625101019f020e3e98087ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:10 +0000
Subject: [PATCH 16/35] fix: report the exit of a program before closing its
 channel

The channel was closed as soon as the regular output of the program ended.
Its exit status and remaining error output followed the close message, if
at all, so the client did not get to see them. If a program had no output
streams neither its exit status nor a close message was sent.

Close the channel when all of the output and the exit status have been
sent. Also answer a close message of the client, as RFC 4254 section 5.3
requires, and do not send anything on a channel after that.
---
 nora_ssh/src/server.rs | 194 ++++++++++++++++++++---------------------
 1 file changed, 95 insertions(+), 99 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 31b6da7..67140ca 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -4,7 +4,11 @@ use crate::{
 	host::{self, Host, HostKey, InError, OutError, SignKey},
 	sync::LocalMutex,
 };
-use core::{cell::RefCell, future::Future, pin::Pin};
+use core::{
+	cell::{Cell, RefCell},
+	future::Future,
+	pin::Pin,
+};
 use ecdsa::{hazmat::SignPrimitive, SignatureSize};
 use elliptic_curve::{
 	ops::{Invert, Reduce},
@@ -22,6 +26,7 @@ use nora_ssh_core::{
 	message::{self as msg, channel::session::SessionRequest, Message, MessageParseError},
 };
 use rand::{CryptoRng, RngCore, SeedableRng};
+use std::rc::Rc;
 use subtle::CtOption;
 
 /// RFC 4254 section 5.2: `SSH_EXTENDED_DATA_STDERR`
@@ -283,23 +288,22 @@ where
 		enc.send(buf, fill, wr, &mut *self.rng.borrow_mut()).await
 	}
 
+	/// Send a message on a channel unless it has been closed already.
 	async fn send_channel(
 		&self,
 		buf: &mut [u8],
-		channel: u32,
-		extended: Option<u32>,
-		data: &[u8],
+		channel: &ChannelState,
+		msg: msg::Channel<'_>,
 	) -> Result<(), OutError> {
-		let msg = Message::Channel(match extended {
-			None => msg::Channel::Data(msg::channel::Data { recipient_channel: channel, data }),
-			Some(ty) => msg::Channel::ExtendedData(msg::channel::ExtendedData {
-				recipient_channel: channel,
-				ty,
-				data,
-			}),
-		});
-		self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
-			.await
+		let mut l = self.write.lock().await;
+		if channel.closed.get() {
+			return Ok(());
+		}
+		channel.closed.set(matches!(msg, msg::Channel::Close(_)));
+		let msg = Message::Channel(msg);
+		let fill = |buf: &mut [u8]| msg.serialize(buf).unwrap().0.len();
+		let (wr, enc) = &mut *l;
+		enc.send(buf, fill, wr, &mut *self.rng.borrow_mut()).await
 	}
 
 	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
@@ -328,49 +332,22 @@ where
 		}
 	}
 
-	/// Forward the output and exit status of a program.
+	/// Forward the output and exit status of a program and close the channel when it is done.
 	async fn serve_program(
 		&self,
 		stdout: Option<Handlers::Stdout>,
 		stderr: Option<Handlers::Stderr>,
 		wait: Pin<Box<dyn Future<Output = u32>>>,
-		channel: u32,
+		channel: Rc<ChannelState>,
 	) -> Result<(), OutError> {
-		let stdout = async {
-			if let Some(stdout) = stdout {
-				self.forward_output(stdout, None, channel).await?;
-				let mut buf = [0; 64];
-				self.send(&mut buf, |buf| {
-					Message::Channel(msg::Channel::Eof(msg::channel::Eof {
-						recipient_channel: channel,
-					}))
-					.serialize(buf)
-					.unwrap()
-					.0
-					.len()
-				})
-				.await?;
-				self.send(&mut buf, |buf| {
-					Message::Channel(msg::Channel::Close(msg::channel::Close {
-						recipient_channel: channel,
-					}))
-					.serialize(buf)
-					.unwrap()
-					.0
-					.len()
-				})
-				.await?;
-			}
-			Ok(())
-		};
-		let stderr = async {
-			match stderr {
-				Some(stderr) => {
-					self.forward_output(stderr, Some(EXTENDED_DATA_STDERR), channel)
-						.await
-				}
-				None => Ok(()),
-			}
+		let recipient_channel = channel.peer_channel;
+		let output = async {
+			try_join!(
+				self.forward_output(stdout, None, &channel),
+				self.forward_output(stderr, Some(EXTENDED_DATA_STDERR), &channel)
+			)?;
+			let msg = msg::Channel::Eof(msg::channel::Eof { recipient_channel });
+			self.send_channel(&mut [0; 64], &channel, msg).await
 		};
 		let exit = async {
 			let status = wait.await;
@@ -378,41 +355,52 @@ where
 			let (ty, l) = SessionRequest::ExitStatus { status }
 				.serialize(&mut data)
 				.unwrap();
-			self.send(&mut [0; 128], |buf| {
-				Message::Channel(msg::Channel::Request(msg::channel::Request {
-					recipient_channel: channel,
-					ty,
-					data: &data[..l],
-					want_reply: false,
-				}))
-				.serialize(buf)
-				.unwrap()
-				.0
-				.len()
-			})
-			.await
+			let msg = msg::Channel::Request(msg::channel::Request {
+				recipient_channel,
+				ty,
+				data: &data[..l],
+				want_reply: false,
+			});
+			self.send_channel(&mut [0; 128], &channel, msg).await
 		};
-		try_join!(stdout, stderr, exit).map(|_| ())
+		try_join!(output, exit)?;
+		// Nothing may be sent after this.
+		let msg = msg::Channel::Close(msg::channel::Close { recipient_channel });
+		self.send_channel(&mut [0; 64], &channel, msg).await
 	}
 
 	/// Forward the output of a program until there is no more.
 	async fn forward_output<Io: AsyncRead + Unpin>(
 		&self,
-		mut io: Io,
+		io: Option<Io>,
 		extended: Option<u32>,
-		channel: u32,
+		channel: &ChannelState,
 	) -> Result<(), OutError> {
+		let mut io = match io {
+			Some(io) => io,
+			None => return Ok(()),
+		};
+		let recipient_channel = channel.peer_channel;
 		let mut data = [0; 256];
 		let mut buf = [0; 512];
-		loop {
+		while !channel.closed.get() {
 			// There is nothing to read anymore if the stream is broken.
 			let l = io.read(&mut data).await.unwrap_or(0);
 			if l == 0 {
-				return Ok(());
+				break;
 			}
-			self.send_channel(&mut buf, channel, extended, &data[..l])
-				.await?;
+			let data = &data[..l];
+			let msg = match extended {
+				None => msg::Channel::Data(msg::channel::Data { recipient_channel, data }),
+				Some(ty) => msg::Channel::ExtendedData(msg::channel::ExtendedData {
+					recipient_channel,
+					ty,
+					data,
+				}),
+			};
+			self.send_channel(&mut buf, channel, msg).await?;
 		}
+		Ok(())
 	}
 
 	async fn receive(
@@ -427,7 +415,10 @@ where
 			match Message::parse(data).map_err(ReceiveError::Message)? {
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
-						peer_channel: o.sender_channel,
+						state: Rc::new(ChannelState {
+							peer_channel: o.sender_channel,
+							closed: Cell::new(false),
+						}),
 						ty: ChannelType::Session, // TODO actually check
 						stdin: None,
 					});
@@ -464,44 +455,34 @@ where
 							.ok(),
 						None => None,
 					};
-					let (msg, stdout, stderr, wait) = match io {
+					let channel = ch.state.clone();
+					let recipient_channel = channel.peer_channel;
+					let (msg, action) = match io {
 						Some(io) => {
 							ch.stdin = io.stdin;
 							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
+								msg::Channel::Success(msg::channel::Success { recipient_channel }),
+								Some(Action::NewIo {
+									stdout: io.stdout,
+									stderr: io.stderr,
+									wait: io.wait,
+									channel: channel.clone(),
+								}),
 							)
 						}
 						None => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
-								recipient_channel: ch.peer_channel,
-							})),
-							None,
-							None,
+							msg::Channel::Failure(msg::channel::Failure { recipient_channel }),
 							None,
 						),
 					};
-					let channel = ch.peer_channel;
 					drop(channels);
 					if r.want_reply {
-						self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						self.send_channel(buf, &channel, msg)
 							.await
 							.map_err(ReceiveError::Out)?;
 					}
-					match (stdout, stderr) {
-						(None, None) => {}
-						(stdout, stderr) => {
-							return Ok(Action::NewIo {
-								stdout,
-								stderr,
-								wait: wait.unwrap(),
-								channel,
-							})
-						}
+					if let Some(action) = action {
+						return Ok(action);
 					}
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
@@ -527,7 +508,15 @@ where
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
-					self.channels.borrow_mut().remove(c.recipient_channel);
+					let ch = self.channels.borrow_mut().remove(c.recipient_channel);
+					if let Some(ch) = ch {
+						let msg = msg::Channel::Close(msg::channel::Close {
+							recipient_channel: ch.state.peer_channel,
+						});
+						self.send_channel(buf, &ch.state, msg)
+							.await
+							.map_err(ReceiveError::Out)?;
+					}
 				}
 				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
 				Message::Disconnect(_) => return Ok(Action::Exit),
@@ -559,15 +548,22 @@ where
 		stdout: Option<Stdout>,
 		stderr: Option<Stderr>,
 		wait: Pin<Box<dyn Future<Output = u32>>>,
-		channel: u32,
+		channel: Rc<ChannelState>,
 	},
 }
 
+/// The part of a channel that is shared with the program running in it.
+struct ChannelState {
+	peer_channel: u32,
+	/// Whether a close message has been sent.
+	closed: Cell<bool>,
+}
+
 pub struct Channel<Stdin>
 where
 	Stdin: AsyncWrite + Unpin,
 {
-	peer_channel: u32,
+	state: Rc<ChannelState>,
 	#[allow(dead_code)]
 	ty: ChannelType,
 	stdin: Option<Stdin>,
-- 
2.43.0


From 40097c6a429551315411a7cec5582f767f4edb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:11 +0000
Subject: [PATCH 17/35] fix: refuse to open channels that are not sessions

Channels of any type were opened and treated as session. Refuse them as
per RFC 4254 section 5.1.
---
 nora_ssh/src/server.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 67140ca..82196de 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -413,13 +413,25 @@ where
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
 			match Message::parse(data).map_err(ReceiveError::Message)? {
+				Message::Channel(msg::Channel::Open(o)) if o.ty != b"session" => {
+					let msg =
+						Message::Channel(msg::Channel::OpenFailure(msg::channel::OpenFailure {
+							recipient_channel: o.sender_channel,
+							reason: msg::channel::OpenFailureReason::UnknownChannelType,
+							description: "",
+							language: b"",
+						}));
+					self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						.await
+						.map_err(ReceiveError::Out)?;
+				}
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						state: Rc::new(ChannelState {
 							peer_channel: o.sender_channel,
 							closed: Cell::new(false),
 						}),
-						ty: ChannelType::Session, // TODO actually check
+						ty: ChannelType::Session,
 						stdin: None,
 					});
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
-- 
2.43.0


From 8b81851deb7ef42b52efdc2057d24140c1fab6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:13 +0000
Subject: [PATCH 18/35] fix: start at most one program per channel

RFC 4254 section 6.5: only one of the shell, exec and subsystem requests
can succeed per channel. A second program took over the input of the first
and both reported their output and exit on the same channel.
---
 nora_ssh/src/server.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 82196de..b19cfc1 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -432,6 +432,7 @@ where
 							closed: Cell::new(false),
 						}),
 						ty: ChannelType::Session,
+						started: false,
 						stdin: None,
 					});
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
@@ -454,6 +455,8 @@ where
 						.ok_or(ReceiveError::UnknownChannel)?;
 					// TODO check if the channel is actually a session channel
 					let ty = match SessionRequest::parse(r.ty, r.data) {
+						// Only one program can be started per channel.
+						_ if ch.started => None,
 						Ok(SessionRequest::Shell) => Some(SpawnType::Shell),
 						Ok(SessionRequest::Exec { command }) => Some(SpawnType::Exec { command }),
 						// Not supported
@@ -471,6 +474,7 @@ where
 					let recipient_channel = channel.peer_channel;
 					let (msg, action) = match io {
 						Some(io) => {
+							ch.started = true;
 							ch.stdin = io.stdin;
 							(
 								msg::Channel::Success(msg::channel::Success { recipient_channel }),
@@ -578,6 +582,8 @@ where
 	state: Rc<ChannelState>,
 	#[allow(dead_code)]
 	ty: ChannelType,
+	/// Whether a program has been started.
+	started: bool,
 	stdin: Option<Stdin>,
 }
 
-- 
2.43.0


From 721e096807087a9a961c1c97adf6e3a083542082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:38 +0000
Subject: [PATCH 19/35] fix: do not let input for a program stall the
 connection

The window and maximum packet size that the client offered were advertised
to it as those of the server, which can't receive packets that large, and
the window was never adjusted, so a program could not get more input than
the first window. Also, a program that does not read its input blocked all
other channels of the client.

Advertise the limits of the server, queue the input of each program and
allow the client to send more as it is consumed.
---
 nora_ssh/src/server.rs | 148 +++++++++++++++++++++++++++++++++--------
 1 file changed, 122 insertions(+), 26 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index b19cfc1..34dcc87 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -15,8 +15,10 @@ use elliptic_curve::{
 	Curve, Scalar,
 };
 use futures::{
-	io, pin_mut, select, stream::FuturesUnordered, try_join, AsyncRead, AsyncReadExt, AsyncWrite,
-	AsyncWriteExt, FutureExt, StreamExt,
+	channel::mpsc::{self, UnboundedReceiver, UnboundedSender},
+	io, pin_mut, select,
+	stream::FuturesUnordered,
+	try_join, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, FutureExt, StreamExt,
 };
 use generic_array::ArrayLength;
 use nora_ssh_core::{
@@ -32,6 +34,14 @@ use subtle::CtOption;
 /// RFC 4254 section 5.2: `SSH_EXTENDED_DATA_STDERR`
 const EXTENDED_DATA_STDERR: u32 = 1;
 
+/// The amount of data a client may send on a channel before a program consumes any of it.
+const WINDOW_SIZE: u32 = 1 << 18;
+
+/// The maximum amount of data a client may send in a single message.
+///
+/// The packets must fit in the receive buffer.
+const MAX_PACKET_SIZE: u32 = 1 << 15;
+
 pub struct Server<Handlers>
 where
 	Handlers: ServerHandlers,
@@ -267,7 +277,7 @@ where
 	read: RefCell<(Handlers::Read, host::In<Handlers::Crypt>)>,
 	write: LocalMutex<(Handlers::Write, host::Out<Handlers::Crypt>)>,
 	user: RefCell<Handlers::User>,
-	channels: RefCell<Arena<Channel<Handlers::Stdin>>>,
+	channels: RefCell<Arena<Channel>>,
 	rng: RefCell<Handlers::Rng>,
 }
 
@@ -325,8 +335,17 @@ where
 			};
 			match action {
 				Action::Exit => return Ok(()),
-				Action::NewIo { stdout, stderr, wait, channel } => {
-					programs.push(self.serve_program(stdout, stderr, wait, channel));
+				Action::NewIo { stdin, stdout, stderr, wait, channel } => {
+					if let Some((stdin, input)) = stdin {
+						programs.push(
+							self.forward_input(stdin, input, channel.clone())
+								.boxed_local(),
+						);
+					}
+					programs.push(
+						self.serve_program(stdout, stderr, wait, channel)
+							.boxed_local(),
+					);
 				}
 			}
 		}
@@ -403,11 +422,83 @@ where
 		Ok(())
 	}
 
+	/// Forward input to a program until there is no more.
+	async fn forward_input(
+		&self,
+		stdin: Handlers::Stdin,
+		mut input: UnboundedReceiver<Vec<u8>>,
+		channel: Rc<ChannelState>,
+	) -> Result<(), OutError> {
+		let mut stdin = Some(stdin);
+		while let Some(data) = input.next().await {
+			if let Some(io) = stdin.as_mut() {
+				if io.write_all(&data).await.is_err() {
+					// The program doesn't accept any more input, so discard it.
+					stdin.take();
+				}
+			}
+			self.adjust_window(&mut [0; 64], &channel, data.len())
+				.await?;
+		}
+		Ok(())
+	}
+
+	/// Allow the client to send more data after some has been consumed.
+	async fn adjust_window(
+		&self,
+		buf: &mut [u8],
+		channel: &ChannelState,
+		consumed: usize,
+	) -> Result<(), OutError> {
+		// The client can't have sent more than the window.
+		let add_bytes = consumed.try_into().unwrap();
+		channel.window.set(channel.window.get() + add_bytes);
+		let msg = msg::Channel::WindowAdjust(msg::channel::WindowAdjust {
+			recipient_channel: channel.peer_channel,
+			add_bytes,
+		});
+		self.send_channel(buf, channel, msg).await
+	}
+
+	/// Pass data from the client on to the program of a channel, if any.
+	async fn receive_data(
+		&self,
+		buf: &mut [u8],
+		channel: u32,
+		data: Option<Vec<u8>>,
+		len: usize,
+	) -> Result<(), ReceiveError> {
+		let state = {
+			let mut channels = self.channels.borrow_mut();
+			let ch = channels
+				.get_mut(channel)
+				.ok_or(ReceiveError::UnknownChannel)?;
+			let window = usize::try_from(ch.state.window.get())
+				.unwrap()
+				.checked_sub(len)
+				.ok_or(ReceiveError::WindowExceeded)?;
+			ch.state.window.set(window.try_into().unwrap());
+			let sent = data.map_or(false, |data| {
+				ch.stdin
+					.as_ref()
+					.map_or(false, |stdin| stdin.unbounded_send(data).is_ok())
+			});
+			if sent {
+				return Ok(());
+			}
+			ch.state.clone()
+		};
+		// Nothing is interested in this data
+		self.adjust_window(buf, &state, len)
+			.await
+			.map_err(ReceiveError::Out)
+	}
+
 	async fn receive(
 		&self,
 		buf: &mut [u8],
 		server: &Server<Handlers>,
-	) -> Result<Action<Handlers::Stdout, Handlers::Stderr>, ReceiveError> {
+	) -> Result<Action<Handlers::Stdin, Handlers::Stdout, Handlers::Stderr>, ReceiveError> {
 		let mut read = self.read.borrow_mut();
 		let (rd, enc) = &mut *read;
 		loop {
@@ -430,6 +521,7 @@ where
 						state: Rc::new(ChannelState {
 							peer_channel: o.sender_channel,
 							closed: Cell::new(false),
+							window: Cell::new(WINDOW_SIZE),
 						}),
 						ty: ChannelType::Session,
 						started: false,
@@ -439,8 +531,8 @@ where
 						msg::channel::OpenConfirmation {
 							sender_channel: ch,
 							recipient_channel: o.sender_channel,
-							window_size: o.window_size,
-							max_packet_size: o.max_packet_size,
+							window_size: WINDOW_SIZE,
+							max_packet_size: MAX_PACKET_SIZE,
 							data: &[],
 						},
 					));
@@ -475,10 +567,15 @@ where
 					let (msg, action) = match io {
 						Some(io) => {
 							ch.started = true;
-							ch.stdin = io.stdin;
+							let stdin = io.stdin.map(|stdin| {
+								let (tx, rx) = mpsc::unbounded();
+								ch.stdin = Some(tx);
+								(stdin, rx)
+							});
 							(
 								msg::Channel::Success(msg::channel::Success { recipient_channel }),
 								Some(Action::NewIo {
+									stdin,
 									stdout: io.stdout,
 									stderr: io.stderr,
 									wait: io.wait,
@@ -502,19 +599,15 @@ where
 					}
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
-					let mut channels = self.channels.borrow_mut();
-					let ch = channels
-						.get_mut(d.recipient_channel)
-						.ok_or(ReceiveError::UnknownChannel)?;
-					if let Some(stdin) = ch.stdin.as_mut() {
-						if stdin.write_all(d.data).await.is_err() {
-							// The program doesn't accept any more input.
-							ch.stdin.take();
-						}
-					}
+					let (channel, data) = (d.recipient_channel, d.data.to_vec());
+					let len = data.len();
+					self.receive_data(buf, channel, Some(data), len).await?;
 				}
 				// No extended data is defined for this direction.
-				Message::Channel(msg::Channel::ExtendedData(_)) => {}
+				Message::Channel(msg::Channel::ExtendedData(d)) => {
+					let (channel, len) = (d.recipient_channel, d.data.len());
+					self.receive_data(buf, channel, None, len).await?;
+				}
 				Message::Channel(msg::Channel::Eof(e)) => {
 					self.channels
 						.borrow_mut()
@@ -554,13 +647,15 @@ where
 	}
 }
 
-enum Action<Stdout, Stderr>
+enum Action<Stdin, Stdout, Stderr>
 where
+	Stdin: AsyncWrite + Unpin,
 	Stdout: AsyncRead + Unpin,
 	Stderr: AsyncRead + Unpin,
 {
 	Exit,
 	NewIo {
+		stdin: Option<(Stdin, UnboundedReceiver<Vec<u8>>)>,
 		stdout: Option<Stdout>,
 		stderr: Option<Stderr>,
 		wait: Pin<Box<dyn Future<Output = u32>>>,
@@ -573,18 +668,18 @@ struct ChannelState {
 	peer_channel: u32,
 	/// Whether a close message has been sent.
 	closed: Cell<bool>,
+	/// The amount of data the client may still send.
+	window: Cell<u32>,
 }
 
-pub struct Channel<Stdin>
-where
-	Stdin: AsyncWrite + Unpin,
-{
+pub struct Channel {
 	state: Rc<ChannelState>,
 	#[allow(dead_code)]
 	ty: ChannelType,
 	/// Whether a program has been started.
 	started: bool,
-	stdin: Option<Stdin>,
+	/// Input for the program, which is closed by dropping this.
+	stdin: Option<UnboundedSender<Vec<u8>>>,
 }
 
 pub struct IoSet<Stdin, Stdout, Stderr>
@@ -616,6 +711,7 @@ pub enum ReceiveError {
 	Message(MessageParseError),
 	UnknownChannel,
 	UnexpectedMessage,
+	WindowExceeded,
 }
 
 #[cfg_attr(not(feature = "no_send"), async_trait::async_trait)]
-- 
2.43.0


From 88b270f597156b7336842ed8350ea38ec9ad8ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:04 +0000
Subject: [PATCH 20/35] fix: respect the window and maximum packet size of the
 client

RFC 4254 section 5.2: the amount of data sent must not exceed the window,
and the size of a message must not exceed the maximum packet size.
---
 nora_ssh/src/server.rs | 85 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 73 insertions(+), 12 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 34dcc87..eff2f47 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -8,6 +8,7 @@ use core::{
 	cell::{Cell, RefCell},
 	future::Future,
 	pin::Pin,
+	task::{Poll, Waker},
 };
 use ecdsa::{hazmat::SignPrimitive, SignatureSize};
 use elliptic_curve::{
@@ -16,6 +17,7 @@ use elliptic_curve::{
 };
 use futures::{
 	channel::mpsc::{self, UnboundedReceiver, UnboundedSender},
+	future::poll_fn,
 	io, pin_mut, select,
 	stream::FuturesUnordered,
 	try_join, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, FutureExt, StreamExt,
@@ -309,7 +311,10 @@ where
 		if channel.closed.get() {
 			return Ok(());
 		}
-		channel.closed.set(matches!(msg, msg::Channel::Close(_)));
+		if let msg::Channel::Close(_) = msg {
+			channel.closed.set(true);
+			channel.wake_all();
+		}
 		let msg = Message::Channel(msg);
 		let fill = |buf: &mut [u8]| msg.serialize(buf).unwrap().0.len();
 		let (wr, enc) = &mut *l;
@@ -408,16 +413,23 @@ where
 			if l == 0 {
 				break;
 			}
-			let data = &data[..l];
-			let msg = match extended {
-				None => msg::Channel::Data(msg::channel::Data { recipient_channel, data }),
-				Some(ty) => msg::Channel::ExtendedData(msg::channel::ExtendedData {
-					recipient_channel,
-					ty,
-					data,
-				}),
-			};
-			self.send_channel(&mut buf, channel, msg).await?;
+			let mut rest = &data[..l];
+			while !rest.is_empty() {
+				let data = match channel.reserve_peer_window(rest.len()).await {
+					Some(l) => &rest[..l],
+					None => return Ok(()),
+				};
+				rest = &rest[data.len()..];
+				let msg = match extended {
+					None => msg::Channel::Data(msg::channel::Data { recipient_channel, data }),
+					Some(ty) => msg::Channel::ExtendedData(msg::channel::ExtendedData {
+						recipient_channel,
+						ty,
+						data,
+					}),
+				};
+				self.send_channel(&mut buf, channel, msg).await?;
+			}
 		}
 		Ok(())
 	}
@@ -522,6 +534,9 @@ where
 							peer_channel: o.sender_channel,
 							closed: Cell::new(false),
 							window: Cell::new(WINDOW_SIZE),
+							peer_window: Cell::new(o.window_size),
+							peer_max_packet_size: o.max_packet_size,
+							wakers: Cell::new(Vec::new()),
 						}),
 						ty: ChannelType::Session,
 						started: false,
@@ -627,7 +642,15 @@ where
 							.map_err(ReceiveError::Out)?;
 					}
 				}
-				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
+				Message::Channel(msg::Channel::WindowAdjust(a)) => {
+					let mut channels = self.channels.borrow_mut();
+					let ch = channels
+						.get_mut(a.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?;
+					let window = ch.state.peer_window.get();
+					ch.state.peer_window.set(window.saturating_add(a.add_bytes));
+					ch.state.wake_all();
+				}
 				Message::Disconnect(_) => return Ok(Action::Exit),
 				Message::Ignore(_) | Message::Unimplemented(_) | Message::Debug(_) => {}
 				// RFC 4252 section 5.1: requests after authentication are silently ignored.
@@ -670,6 +693,44 @@ struct ChannelState {
 	closed: Cell<bool>,
 	/// The amount of data the client may still send.
 	window: Cell<u32>,
+	/// The amount of data that may still be sent to the client.
+	peer_window: Cell<u32>,
+	/// The maximum amount of data that may be sent to the client in a single message.
+	peer_max_packet_size: u32,
+	/// Tasks waiting for the window to be adjusted or the channel to be closed.
+	wakers: Cell<Vec<Waker>>,
+}
+
+impl ChannelState {
+	/// Wait until data can be sent to the client and reserve room for up to `max` bytes of it.
+	///
+	/// Returns `None` if the channel has been closed.
+	async fn reserve_peer_window(&self, max: usize) -> Option<usize> {
+		poll_fn(|cx| {
+			let window = self.peer_window.get();
+			let l = window
+				.min(self.peer_max_packet_size)
+				.min(max.try_into().unwrap_or(u32::MAX));
+			if self.closed.get() {
+				Poll::Ready(None)
+			} else if l > 0 {
+				self.peer_window.set(window - l);
+				Poll::Ready(Some(l.try_into().unwrap()))
+			} else {
+				let mut wakers = self.wakers.take();
+				if !wakers.iter().any(|w| w.will_wake(cx.waker())) {
+					wakers.push(cx.waker().clone());
+				}
+				self.wakers.set(wakers);
+				Poll::Pending
+			}
+		})
+		.await
+	}
+
+	fn wake_all(&self) {
+		self.wakers.take().into_iter().for_each(Waker::wake);
+	}
 }
 
 pub struct Channel {
-- 
2.43.0


From 5e5afd0d055438a20c4afa47111f570269cace0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:32 +0000
Subject: [PATCH 21/35] fix: exit with an error status if scp fails

The exit status was 0 even if nothing at all was transferred.
---
 nora_scp/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index b8bf41e..91985a7 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -28,11 +28,14 @@ use std::{
 fn main() {
 	match start() {
 		Ok(()) => {}
-		Err(e) => eprintln!(
-			"{} failed: {}",
-			std::env::args().next().as_deref().unwrap_or("scp"),
-			e
-		),
+		Err(e) => {
+			eprintln!(
+				"{} failed: {}",
+				std::env::args().next().as_deref().unwrap_or("scp"),
+				e
+			);
+			std::process::exit(1);
+		}
 	}
 }
 
-- 
2.43.0


From 3405028d7f2a8192dbd4a9dd6043cada463a134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:32 +0000
Subject: [PATCH 22/35] fix: receive files with spaces in their name with scp

Everything from the first space on was dropped from the name. Also do not
accept a header that is cut off.
---
 nora_scp/src/main.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 91985a7..5d480c2 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -93,13 +93,12 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				stdin.borrow_mut().read_until(b'\n', header)?;
 				// TODO try to support non-UTF8 when possible.
 				let header = str::from_utf8(header)?;
-				let mut parts = header.split(' ');
+				let header = header.strip_suffix('\n').ok_or("truncated header")?;
+				// The name itself may contain spaces.
+				let mut parts = header.splitn(3, ' ');
 				let mode = parts.next().ok_or("missing mode")?;
 				let size = parts.next().ok_or("missing size")?;
-				let mut file = parts.next().ok_or("missing file")?;
-				if file.bytes().last() == Some(b'\n') {
-					file = &file[..file.len() - 1];
-				}
+				let file = parts.next().ok_or("missing file")?;
 				// TODO check for garbage
 				let size = size.parse::<usize>()?;
 				Ok(Some((Type::File, mode, size, file)))
-- 
2.43.0


From 6d5641373a1d0ee0f34e742a1fcaca72a863208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:33 +0000
Subject: [PATCH 23/35] fix: do not let the sender pick a path outside the
 target directory of scp

The name of a file was used as is, so the sender could overwrite any file
by using an absolute path or parent directories.
---
 nora_scp/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 5d480c2..2d729a9 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -136,6 +136,10 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 		while let Some((ty, _mode, size, file)) = read_header(&stdin, &mut header)? {
 			match ty {
 				Type::File => {
+					// The file must be put directly in the directory.
+					if matches!(file, "" | "." | "..") || file.contains('/') {
+						Err(format!("invalid file name {:?}", file))?;
+					}
 					let f = File::create(file)?;
 					ping_ready()?;
 					transfer_file(f, size)?;
-- 
2.43.0


From 27ad1c6940dd81f763d1dd064490029273ed69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:33 +0000
Subject: [PATCH 24/35] fix: report an error instead of panicking if scp does
 not support something

---
 nora_scp/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 2d729a9..39d3722 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -62,7 +62,7 @@ fn start() -> Result<(), Box<dyn Error>> {
 	match mode {
 		Mode::Receive => receive(&paths, make_dir),
 		Mode::Send => send(&paths),
-		Mode::Client => todo!(),
+		Mode::Client => Err("expected either -f or -t")?,
 	}
 }
 
@@ -103,7 +103,7 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				let size = size.parse::<usize>()?;
 				Ok(Some((Type::File, mode, size, file)))
 			}
-			(_, b'D') => todo!(),
+			(_, b'D') => Err("directories are not supported")?,
 			c => Err(format!("invalid mode {:?}", c))?,
 		}
 	}
-- 
2.43.0


From 1db4d3f80b91441012288af24588b61550c26fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:34 +0000
Subject: [PATCH 25/35] fix: fail if scp has no path for a file

If more files were sent than there are paths, or no path was given, scp
reported success without having transferred the files.
---
 nora_scp/src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 39d3722..b05e30f 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -59,6 +59,10 @@ fn start() -> Result<(), Box<dyn Error>> {
 		}
 	}
 
+	if paths.is_empty() {
+		Err("expected a path")?;
+	}
+
 	match mode {
 		Mode::Receive => receive(&paths, make_dir),
 		Mode::Send => send(&paths),
@@ -163,6 +167,9 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				}
 			}
 		}
+		if read_header(&stdin, &mut header)?.is_some() {
+			Err("unexpected file")?;
+		}
 	}
 	Ok(())
 }
-- 
2.43.0


From 7988fe26a6aec2790c17cbb635c0d850ab95a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:34 +0000
Subject: [PATCH 26/35] fix: follow the protocol when sending files with scp

The size of every file was announced as 42 bytes, the contents were not
ended by a zero byte and the acknowledgements of the receiver were not
waited for, so no receiver could make sense of it.
---
 nora_scp/src/main.rs | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index b05e30f..4fee875 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -175,23 +175,42 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 }
 
 fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
-	let mut buf = [0; 1 << 15];
+	let mut stdin = io::stdin().lock();
+	let mut stdout = io::stdout().lock();
+	let mut wait_ready = || -> Result<(), Box<dyn Error>> {
+		let mut ack = [0];
+		stdin.read_exact(&mut ack)?;
+		if ack[0] != b'\0' {
+			Err("expected '\\0'")?;
+		}
+		Ok(())
+	};
+
+	wait_ready()?;
 	for path in from {
-		let mut f = File::open(path)?;
+		let f = File::open(path)?;
+		let meta = f.metadata()?;
+		if !meta.is_file() {
+			Err(format!("{:?} is not a regular file", path))?;
+		}
 		// TODO try to support non-UTF8 when possible.
 		let name = path
 			.file_name()
-			.unwrap()
-			.to_str()
+			.and_then(|name| name.to_str())
 			.ok_or("failed to convert path to UTF-8")?;
-		println!("C{:04o} {} {}", 0o644, 42, name);
-		let mut out = io::stdout().lock();
-		loop {
-			match f.read(&mut buf)? {
-				0 => break,
-				n => out.write_all(&buf[..n])?,
-			}
+		if name.contains('\n') {
+			Err(format!("invalid file name {:?}", name))?;
+		}
+		// TODO actually do something with mode.
+		writeln!(stdout, "C{:04o} {} {}", 0o644, meta.len(), name)?;
+		stdout.flush()?;
+		wait_ready()?;
+		if io::copy(&mut f.take(meta.len()), &mut stdout)? != meta.len() {
+			Err("file is shorter than expected")?;
 		}
+		stdout.write_all(b"\0")?;
+		stdout.flush()?;
+		wait_ready()?;
 	}
 	Ok(())
 }
-- 
2.43.0


From 6f9e1af7ab49f16a857c3fd7106c4c04e58c97c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:58 +0000
Subject: [PATCH 27/35] fix: refuse logins with a password or a bad user name
 instead of panicking in sshd

---
 nora_sshd/src/main.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 3591409..beaa88a 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -77,9 +77,7 @@ impl ServerHandlers for Handlers {
 	) -> Result<Self::User, ()> {
 		match auth {
 			Auth::None => Err(()),
-			Auth::Password(_pwd) => {
-				todo!()
-			}
+			Auth::Password(_pwd) => Err(()),
 			Auth::PublicKey { algorithm, key, signature, message } => {
 				if algorithm != b"ssh-ed25519" {
 					return Err(());
@@ -90,7 +88,7 @@ impl ServerHandlers for Handlers {
 					.map_err(|_| ())?;
 				key.verify(message, &signature.try_into().map_err(|_| ())?)
 					.map_err(|_| ())?;
-				Ok(User { _name: core::str::from_utf8(user).unwrap().into(), shell: None })
+				Ok(User { _name: core::str::from_utf8(user).map_err(|_| ())?.into(), shell: None })
 			}
 		}
 	}
-- 
2.43.0


From a37b180d5e191b5c7204e139ad3c350af165fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:58 +0000
Subject: [PATCH 28/35] fix: refuse programs that can not be started instead of
 panicking in sshd

---
 nora_sshd/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index beaa88a..5f880df 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -105,13 +105,13 @@ impl ServerHandlers for Handlers {
 		};
 		match ty {
 			SpawnType::Shell => {
-				let shell = std::env::var_os("SHELL").unwrap();
+				let shell = std::env::var_os("SHELL").ok_or(())?;
 				let mut shell = process::Command::new(shell)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
@@ -126,14 +126,14 @@ impl ServerHandlers for Handlers {
 					.split(|c| c.is_ascii_whitespace())
 					.filter(|s| !s.is_empty())
 					.map(std::ffi::OsStr::from_bytes);
-				let bin = args.next().unwrap();
+				let bin = args.next().ok_or(())?;
 				let mut shell = process::Command::new(bin)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.args(args)
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
-- 
2.43.0


From 28cf2b180465ee1dec88a4a0419f849c051451bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:58 +0000
Subject: [PATCH 29/35] fix: report programs killed by a signal as failed in
 sshd

---
 nora_sshd/src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 5f880df..691a338 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -12,7 +12,7 @@ use nora_ssh::{
 	Identifier,
 };
 use rand::rngs::StdRng;
-use std::os::unix::ffi::OsStrExt;
+use std::os::unix::{ffi::OsStrExt, process::ExitStatusExt};
 
 #[async_std::main]
 async fn main() -> ! {
@@ -101,7 +101,16 @@ impl ServerHandlers for Handlers {
 	) -> Result<IoSet<Self::Stdin, Self::Stdout, Self::Stderr>, ()> {
 		let wait = |child: &mut process::Child| {
 			let wait = child.status();
-			async move { wait.await.unwrap().code().unwrap_or(0) as u32 }
+			async move {
+				match wait.await {
+					// Follow the convention of shells for programs killed by a signal.
+					Ok(status) => status
+						.code()
+						.or_else(|| status.signal().map(|s| 128 + s))
+						.unwrap_or(255) as u32,
+					Err(_) => 255,
+				}
+			}
 		};
 		match ty {
 			SpawnType::Shell => {
-- 
2.43.0


From 8c6d75f7bbcd48f65c3f978c84ca6e86764c0027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:58 +0000
Subject: [PATCH 30/35] fix: do not panic if a connection can not be accepted
 in sshd

---
 nora_sshd/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 691a338..f5b9ba7 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -13,6 +13,7 @@ use nora_ssh::{
 };
 use rand::rngs::StdRng;
 use std::os::unix::{ffi::OsStrExt, process::ExitStatusExt};
+use std::time::Duration;
 
 #[async_std::main]
 async fn main() -> ! {
@@ -52,7 +53,13 @@ impl ServerHandlers for Handlers {
 	type Rng = StdRng;
 
 	async fn accept(&self) -> (Self::Read, Self::Write) {
-		self.listener.accept().await.unwrap().0.split()
+		loop {
+			match self.listener.accept().await {
+				Ok((stream, _)) => return stream.split(),
+				// e.g. too many open files, which may be resolved when other clients leave.
+				Err(_) => async_std::task::sleep(Duration::from_millis(10)).await,
+			}
+		}
 	}
 
 	async fn public_key_exists<'a>(
-- 
2.43.0


From 0e61e4a527ed426849ac267d5500be47fc8e791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:35 +0000
Subject: [PATCH 31/35] fix: close the input of a program if the client already
 sent EOF

---
 nora_ssh/src/server.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index eff2f47..46b01c8 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -540,6 +540,7 @@ where
 						}),
 						ty: ChannelType::Session,
 						started: false,
+						eof: false,
 						stdin: None,
 					});
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
@@ -584,7 +585,8 @@ where
 							ch.started = true;
 							let stdin = io.stdin.map(|stdin| {
 								let (tx, rx) = mpsc::unbounded();
-								ch.stdin = Some(tx);
+								// There is no input if the client already sent EOF.
+								ch.stdin = (!ch.eof).then(|| tx);
 								(stdin, rx)
 							});
 							(
@@ -624,12 +626,12 @@ where
 					self.receive_data(buf, channel, None, len).await?;
 				}
 				Message::Channel(msg::Channel::Eof(e)) => {
-					self.channels
-						.borrow_mut()
+					let mut channels = self.channels.borrow_mut();
+					let ch = channels
 						.get_mut(e.recipient_channel)
-						.ok_or(ReceiveError::UnknownChannel)?
-						.stdin
-						.take();
+						.ok_or(ReceiveError::UnknownChannel)?;
+					ch.eof = true;
+					ch.stdin.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					let ch = self.channels.borrow_mut().remove(c.recipient_channel);
@@ -739,6 +741,8 @@ pub struct Channel {
 	ty: ChannelType,
 	/// Whether a program has been started.
 	started: bool,
+	/// Whether the client will not send any more data.
+	eof: bool,
 	/// Input for the program, which is closed by dropping this.
 	stdin: Option<UnboundedSender<Vec<u8>>>,
 }
-- 
2.43.0


From 2739753eb1003995cb547c94e106c91d409710ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 32/35] fix: flush the transport and the input of programs
 after writing

---
 nora_ssh/src/host.rs   | 5 ++++-
 nora_ssh/src/server.rs | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index d6b3494..741c5a1 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -150,6 +150,7 @@ impl Host<p256::NistP256> {
 			.write_all(host_pkt.as_raw())
 			.await
 			.map_err(HandleNewClientError::Write)?;
+		write.flush().await.map_err(HandleNewClientError::Write)?;
 
 		// Receive id + kexinit
 		let mut ident = [0; Identifier::MAX_LEN];
@@ -299,6 +300,7 @@ impl Host<p256::NistP256> {
 			.write_all(pkt.as_raw())
 			.await
 			.map_err(HandleNewClientError::Write)?;
+		write.flush().await.map_err(HandleNewClientError::Write)?;
 		let pkt = packet::parse(&mut pkt_buf, read, true, BlockSize::B8)
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
@@ -350,7 +352,8 @@ impl<D: Cipher> Out<D> {
 		);
 		let pkt = pkt.into_raw(self.0.tag_size());
 		self.0.encrypt(pkt);
-		io.write_all(pkt).await.map_err(OutError::Write)
+		io.write_all(pkt).await.map_err(OutError::Write)?;
+		io.flush().await.map_err(OutError::Write)
 	}
 }
 
diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 46b01c8..562e4d3 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -444,7 +444,11 @@ where
 		let mut stdin = Some(stdin);
 		while let Some(data) = input.next().await {
 			if let Some(io) = stdin.as_mut() {
-				if io.write_all(&data).await.is_err() {
+				let sent = async {
+					io.write_all(&data).await?;
+					io.flush().await
+				};
+				if sent.await.is_err() {
 					// The program doesn't accept any more input, so discard it.
 					stdin.take();
 				}
-- 
2.43.0


From d6791726aed7e7c99fc99ce3c0c98ac49c35e9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:46 +0000
Subject: [PATCH 33/35] fix: do not let a busy client or program starve the
 others

---
 nora_ssh/src/host.rs       |  2 ++
 nora_ssh/src/identifier.rs |  7 +++++++
 nora_ssh/src/server.rs     |  3 ++-
 nora_ssh/src/sync.rs       | 18 ++++++++++++++++++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 741c5a1..578a08d 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -1,6 +1,7 @@
 use crate::{
 	identifier::{self, ParseIdentError},
 	packet::{self, PacketParseError},
+	sync::yield_now,
 };
 use ecdsa::{
 	hazmat::SignPrimitive, signature::Signer, PrimeCurve, SignatureSize, SigningKey, VerifyingKey,
@@ -373,6 +374,7 @@ impl<D: Cipher> In<D> {
 	where
 		Io: AsyncReadExt + Unpin,
 	{
+		yield_now().await;
 		let (len, data) = buf.split_at_mut(4);
 		io.read_exact(len).await.map_err(InError::Read)?;
 		let lenb = self
diff --git a/nora_ssh/src/identifier.rs b/nora_ssh/src/identifier.rs
index 7990168..fcb3810 100644
--- a/nora_ssh/src/identifier.rs
+++ b/nora_ssh/src/identifier.rs
@@ -1,3 +1,4 @@
+use crate::sync::yield_now;
 use core::slice;
 use futures::io;
 use nora_ssh_core::identifier::Identifier;
@@ -22,7 +23,13 @@ where
 		EolLf,
 	}
 	let mut state = State::EolLf;
+	let mut ignored = 0u8;
 	loop {
+		// There may be any amount of this
+		ignored = ignored.wrapping_add(1);
+		if ignored == 0 {
+			yield_now().await;
+		}
 		let mut b = 0;
 		io.read_exact(slice::from_mut(&mut b))
 			.await
diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 562e4d3..af145a7 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -2,7 +2,7 @@ use crate::{
 	arena::Arena,
 	auth::Auth,
 	host::{self, Host, HostKey, InError, OutError, SignKey},
-	sync::LocalMutex,
+	sync::{yield_now, LocalMutex},
 };
 use core::{
 	cell::{Cell, RefCell},
@@ -408,6 +408,7 @@ where
 		let mut data = [0; 256];
 		let mut buf = [0; 512];
 		while !channel.closed.get() {
+			yield_now().await;
 			// There is nothing to read anymore if the stream is broken.
 			let l = io.read(&mut data).await.unwrap_or(0);
 			if l == 0 {
diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 4f0d5f6..4e84dcb 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -5,6 +5,24 @@ use core::{
 	pin::Pin,
 	task::{Context, Poll, Waker},
 };
+use futures::future::poll_fn;
+
+/// Let other tasks run before continuing.
+///
+/// I/O that is always ready never yields on its own, so a busy client or program would keep all
+/// others from being served.
+pub async fn yield_now() {
+	let mut yielded = false;
+	poll_fn(|cx| {
+		if yielded {
+			return Poll::Ready(());
+		}
+		yielded = true;
+		cx.waker().wake_by_ref();
+		Poll::Pending
+	})
+	.await
+}
 
 pub struct LocalMutex<T> {
 	inner: RefCell<T>,
-- 
2.43.0


From f079971c2d5fcc427ce72361743800629cd27065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:09 +0000
Subject: [PATCH 34/35] fix: refuse clients without a common compression
 algorithm

---
 nora_ssh/src/host.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 578a08d..228af7a 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -187,6 +187,14 @@ impl Host<p256::NistP256> {
 				.encryption_algorithms_server_to_client
 				.iter()
 				.any(|s| CIPHER_NAMES.iter().any(|&t| t == s))
+			|| !msg
+				.compression_algorithms_client_to_server
+				.iter()
+				.any(|s| s == "none")
+			|| !msg
+				.compression_algorithms_server_to_client
+				.iter()
+				.any(|s| s == "none")
 		// TODO we should handle the case where a HMAC needs to be selected if we're
 		// not using chacha20-poly1305
 		{
-- 
2.43.0


From 52a316e5282a579c1dab97b142f42b74d585f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:18 +0000
Subject: [PATCH 35/35] fix: do not queue empty data for programs

---
 nora_ssh/src/server.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index af145a7..2142c84 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -495,6 +495,10 @@ where
 				.checked_sub(len)
 				.ok_or(ReceiveError::WindowExceeded)?;
 			ch.state.window.set(window.try_into().unwrap());
+			// Any number of these fits in the window, so don't queue them.
+			if len == 0 {
+				return Ok(());
+			}
 			let sent = data.map_or(false, |data| {
 				ch.stdin
 					.as_ref()
-- 
2.43.0

