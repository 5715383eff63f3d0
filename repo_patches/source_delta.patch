From 022ab2ba3fffca3abe5ad94b31e48af258dfc7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 01/12] fix: reject long frames too short for control and
 address

---
 src/parse/link_layer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 08a323b..d45e57e 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -138,7 +138,9 @@ where
 		+ winnow::stream::Compare<u8>
 		+ Clone,
 {
+	// The length always covers at least the control and address bytes
 	let length = binary::u8
+		.verify(|v| *v >= 2)
 		.context(StrContext::Label("length"))
 		.parse_next(input)?;
 	binary::u8
-- 
2.43.0


From 178078c1ffbef6a4024ecf59b73fc3b3357d02f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 02/12] fix: decode secondary function 15 as link not
 implemented

---
 src/parse/link_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index d45e57e..e6388a1 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -107,7 +107,7 @@ impl Control {
 						9 => SecondaryControlMessage::UserDataUnavailable,
 						11 => SecondaryControlMessage::Status,
 						14 => SecondaryControlMessage::LinkNotFunctioning,
-						15 => SecondaryControlMessage::LinkNotFunctioning,
+						15 => SecondaryControlMessage::LinkNotImplemented,
 						_ => return None,
 					},
 				}
-- 
2.43.0


From 380decd7c5e63bb0f40ac5125784d95453151076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:20 +0000
Subject: [PATCH 03/12] fix: report OBIS and transport CI fields as unsupported
 instead of panicking

---
 src/parse/transport_layer/control_info.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index cf17a49..d926543 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -115,6 +115,14 @@ impl MBusMessage {
 			}
 		};
 
+		let unsupported = |input: &&Bytes, label| {
+			MBusError::from_input(input).add_context(
+				input,
+				&ci_checkpoint,
+				StrContext::Label(label),
+			)
+		};
+
 		let mut parse_remaining = repeat::<_, _, Vec<_>, _, _>(0.., binary::u8)
 			.context(StrContext::Label("Remaining Data"));
 
@@ -175,7 +183,7 @@ impl MBusMessage {
 			0x71 | 0x74 | 0x75 => Self::AlarmFromDevice(header, parse_remaining.parse_next(input)?),
 			0x72 | 0x78 | 0x7A => Self::ResponseFromDevice(header, Frame::parse.parse_next(input)?),
 			0x73 | 0x79 | 0x7B => todo!("compact frame"),
-			_ => unreachable!(),
+			_ => return Err(unsupported(input, "unsupported CI field")),
 		})
 	}
 }
-- 
2.43.0


From ec73fe1d44800a95f3a5ad274fc71198752b4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:23 +0000
Subject: [PATCH 04/12] fix: report format and compact frames as unsupported
 instead of panicking

---
 src/parse/transport_layer/control_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index d926543..3245346 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -175,14 +175,14 @@ impl MBusMessage {
 			0x6D => Self::TimeAdjustmentToDevice(header, parse_remaining.parse_next(input)?),
 			// Actual mbus
 			0x51 | 0x5A | 0x5B => Self::CommandToDevice(header, parse_remaining.parse_next(input)?),
-			0x69..=0x6B => todo!("format frame"),
+			0x69..=0x6B => return Err(unsupported(input, "unsupported format frame")),
 			0x6E..=0x70 => Self::ApplicationErrorFromDevice(
 				header,
 				ApplicationErrorMessage::parse.parse_next(input)?,
 			),
 			0x71 | 0x74 | 0x75 => Self::AlarmFromDevice(header, parse_remaining.parse_next(input)?),
 			0x72 | 0x78 | 0x7A => Self::ResponseFromDevice(header, Frame::parse.parse_next(input)?),
-			0x73 | 0x79 | 0x7B => todo!("compact frame"),
+			0x73 | 0x79 | 0x7B => return Err(unsupported(input, "unsupported compact frame")),
 			_ => return Err(unsupported(input, "unsupported CI field")),
 		})
 	}
-- 
2.43.0


From 1f71f28e827df7edd2466edcb9f9ef646e142c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:25 +0000
Subject: [PATCH 05/12] fix: accept application reset, command and selection
 without a header

---
 src/parse/transport_layer/control_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index 3245346..4057389 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -64,6 +64,7 @@ impl MBusMessage {
 
 		let header = match ci {
 			0x00..=0x1F
+			| 0x50..=0x52
 			| 0x54
 			| 0x5C
 			| 0x66
-- 
2.43.0


From b29d181911457dcca85e07d9defe606f7f4a644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:27 +0000
Subject: [PATCH 06/12] fix: report unsupported security modes instead of
 panicking

---
 src/parse/transport_layer/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 1bdc7a1..6e0941f 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -119,7 +119,8 @@ impl SecurityMode {
 				}
 				// libmbus strikes again
 				6 | 11 | 12 | 14 | 16..=31 => Some(SecurityMode::Reserved(raw_value)),
-				_ => todo!("Packet encryption is not yet supported (mode {security_mode})"),
+				// Packet encryption is not yet supported
+				_ => None,
 			}
 		})
 		.parse_next(input)
-- 
2.43.0


From d4710c362571d25ea3d6670e1170658ea3d70373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:30 +0000
Subject: [PATCH 07/12] fix: report more than 10 DIFEs as a parse error instead
 of panicking

---
 src/parse/application_layer/dib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index 5fcf55f..1b980a1 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -5,7 +5,8 @@
 use crate::parse::error::{MBResult, MBusError};
 use crate::parse::types::BitsInput;
 use winnow::binary::bits;
-use winnow::error::{ParserError, StrContext};
+use winnow::error::{AddContext, ParserError, StrContext};
+use winnow::stream::Stream;
 use winnow::Parser;
 
 #[derive(Debug, Clone, Copy)]
@@ -95,7 +96,11 @@ impl DataInfoBlock {
 		let mut i = 1;
 		while extension {
 			if i > 10 {
-				return Err(MBusError::assert(input, "Packet has more than 10 DIFEs!"));
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&input.checkpoint(),
+					StrContext::Label("too many DIFEs"),
+				));
 			}
 
 			let mut dife_device: u16;
-- 
2.43.0


From 965015dad5053f41d265799f2cd83640f0155169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 08/12] fix: weigh DIFE device, tariff and storage bits by
 position

---
 src/parse/application_layer/dib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index 1b980a1..c1d45e2 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -122,9 +122,10 @@ impl DataInfoBlock {
 				break;
 			}
 
-			dife_device <<= i;
-			dife_tariff <<= 2 * i;
-			dife_storage <<= 4 * i;
+			// The DIF only carries the lowest storage number bit
+			dife_device <<= i - 1;
+			dife_tariff <<= 2 * (i - 1);
+			dife_storage <<= 4 * (i - 1) + 1;
 			i += 1;
 
 			device += dife_device;
-- 
2.43.0


From 92de24e5ee226b63e6de57ce8077e9f42d1bb551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:34 +0000
Subject: [PATCH 09/12] fix: join the local time deviation bits of type K in
 the right order

---
 src/parse/types/date.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/types/date.rs b/src/parse/types/date.rs
index 75fe821..7c579fd 100644
--- a/src/parse/types/date.rs
+++ b/src/parse/types/date.rs
@@ -461,13 +461,13 @@ impl TypeKDST {
 	pub fn parse(input: &mut &Bytes) -> MBResult<Self> {
 		bits::bits::<_, _, MBusError, _, _>((
 			// byte 1
-			bits::take(3_usize).context(StrContext::Label("gmt deviation upper")),
+			bits::take(3_usize).context(StrContext::Label("gmt deviation lower")),
 			bits::take(5_usize)
 				.verify(|v| matches!(v, 0..=23 | 31))
 				.context(StrContext::Label("hour begins")),
 			// byte 2
 			bits::bool.context(StrContext::Label("enable")),
-			bits::take(2_usize).context(StrContext::Label("gmt deviation lower")),
+			bits::take(2_usize).context(StrContext::Label("gmt deviation upper")),
 			bits::take(5_usize)
 				.verify(|v| matches!(v, 1..=31))
 				.context(StrContext::Label("day begins")),
@@ -489,10 +489,10 @@ impl TypeKDST {
 		))
 		.map(
 			|(
-				gmt_u,
+				gmt_l,
 				starts_hour,
 				enable,
-				gmt_l,
+				gmt_u,
 				starts_day,
 				dst_plus,
 				dst_deviation,
-- 
2.43.0


From 073bdb6f8bf05b333724d6b65fa302a596842619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 10/12] fix: do not sniff byte order marks in latin-1 strings

---
 src/parse/types/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse/types/string.rs b/src/parse/types/string.rs
index 759a174..a78f6cb 100644
--- a/src/parse/types/string.rs
+++ b/src/parse/types/string.rs
@@ -29,7 +29,11 @@ pub fn parse_latin1<'a>(num_bytes: usize) -> impl Parser<&'a Bytes, String, MBus
 			repeat::<_, _, (), _, _>(num_bytes, binary::u8)
 				.context(StrContext::Label("latin-1 string"))
 				.take()
-				.map(|data| WINDOWS_1252.decode(data).0.chars().rev().collect())
+				.map(|data| {
+					// There is no byte order mark in a single byte encoding
+					let (text, _) = WINDOWS_1252.decode_without_bom_handling(data);
+					text.chars().rev().collect()
+				})
 				.parse_next(input)
 		}
 	}
-- 
2.43.0


From c54212f3ea5e5cdfc5d23764fe3e0184c9a01d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 11/12] fix: take the security mode from bits 8 to 12 of the
 configuration field

---
 src/parse/transport_layer/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 6e0941f..b261a4a 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -105,10 +105,10 @@ impl SecurityMode {
 			.parse_next(input)?;
 		(binary::bits::bits::<_, _, MBusError, _, _>((
 			binary::bits::take(8_usize).context(StrContext::Label("Security mode info low")),
-			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 			binary::bits::take(3_usize).context(StrContext::Label("Security mode info high")),
+			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 		)))
-		.verify_map(|(info_low, security_mode, info_high): (u8, u8, u8)| {
+		.verify_map(|(info_low, info_high, security_mode): (u8, u8, u8)| {
 			match security_mode {
 				0 => {
 					if info_high == 0 && info_low == 0 {
-- 
2.43.0


From a5b3f0adc3fdd5a0045e13728e926bb76c4cab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 12/12] fix: decode 48 bit date-times as type I

---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 21041f7..3c85c97 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -136,7 +136,7 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::LVAR => ValueType::TypeMDatetime,
 			RawDataType::Binary(4) => ValueType::TypeFDateTime,
 			RawDataType::Binary(3) => ValueType::TypeJTime,
-			RawDataType::Binary(5) => ValueType::TypeIDateTime,
+			RawDataType::Binary(6) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
 		vt => vt,
-- 
2.43.0

