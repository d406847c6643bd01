From fa3cd8ca585771cff0b69449a2b1e3d83da1a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:30 +0000
Subject: [PATCH 1/5] fix: accept a zero length in long form at the end of
 BER-TLV data

A final data object without a value is valid, whichever form its length is
encoded in, but '5A8100' was rejected while '5A00' and '5A81005000' weren't.
---
 src/emv/tlv_parsing/ber_tlv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index a546893..cf31d1e 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -48,7 +48,7 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 			}
 			let start_index = index;
 			index += 1 + subsequent_length_byte_count;
-			if index >= bytes_len {
+			if index > bytes_len {
 				return Err(ParseError::NonCompliant);
 			}
 			byte_slice_to_u32(
-- 
2.43.0


From 220c3639b76da012898fce2392079f046408a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:17 +0000
Subject: [PATCH 2/5] fix: bound the depth to which constructed data objects
 are descended into

Data objects nested 256 or more levels deep overflowed the indentation of the
output, and ones nested some thousands of levels deep overflowed the stack.
---
 src/emv/tlv_parsing/ber_tlv.rs | 42 ++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index cf31d1e..cfeffcb 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -9,8 +9,28 @@ use crate::{
 	util::{byte_slice_to_u32, BYTES_PER_32_BITS},
 };
 
+/// The maximum depth to which constructed data objects are descended into.
+///
+/// Anything nested any deeper than this is left as raw data. It keeps the
+/// recursion bounded, and the indentation of the output within its range.
+const MAX_NESTING_DEPTH: u8 = 250;
+
 /// Parses a block of BER-TLV encoded data.
 pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, ParseError> {
+	parse_at_depth(bytes, masking_characters, 0)
+}
+
+/// Parses a block of BER-TLV encoded data that's nested in `depth` constructed
+/// data objects.
+fn parse_at_depth(
+	bytes: &[u8],
+	masking_characters: &[char],
+	depth: u8,
+) -> Result<RawEmvBlock, ParseError> {
+	if depth > MAX_NESTING_DEPTH {
+		return Err(ParseError::Unsupported);
+	}
+
 	let bytes_len = bytes.len();
 	let mut nodes = Vec::new();
 	let mut index = 0;
@@ -68,7 +88,12 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 		// Push the resulting tag to the list
 		let tag_data = EmvData::from_u8_check_for_masked(data.to_vec(), masking_characters);
 		nodes.push(RawEmvNode {
-			child_block: get_child_block(data_object_type, &tag_data, masking_characters),
+			child_block: get_child_block_at_depth(
+				data_object_type,
+				&tag_data,
+				masking_characters,
+				depth,
+			),
 			tag:         RawEmvTag {
 				tag: bytes[tag_start_index..=tag_end_index].to_vec(),
 				class,
@@ -108,11 +133,24 @@ pub fn get_child_block(
 	data_object_type: DataObjectType,
 	tag_data: &EmvData,
 	masking_characters: &[char],
+) -> RawEmvBlock {
+	get_child_block_at_depth(data_object_type, tag_data, masking_characters, 0)
+}
+
+/// Same as [`get_child_block`], but for a tag that's nested in `depth`
+/// constructed data objects.
+fn get_child_block_at_depth(
+	data_object_type: DataObjectType,
+	tag_data: &EmvData,
+	masking_characters: &[char],
+	depth: u8,
 ) -> RawEmvBlock {
 	match data_object_type {
 		DataObjectType::Primitive => RawEmvBlock::default(),
 		DataObjectType::Constructed => match tag_data {
-			EmvData::Normal(data) => parse(data, masking_characters).unwrap_or_default(),
+			EmvData::Normal(data) => {
+				parse_at_depth(data, masking_characters, depth + 1).unwrap_or_default()
+			}
 			EmvData::Masked => RawEmvBlock::default(),
 		},
 	}
-- 
2.43.0


From b39a6bd6f111d50a9f166a8874114dcd6ad33fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:52 +0000
Subject: [PATCH 3/5] fix: report an invalid configuration instead of panicking

A wrong value in the configuration file or the environment ended the program
with a panic and a backtrace.
---
 src/main.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 9166379..6f132bd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -55,7 +55,7 @@ use termcolor::{StandardStream, WriteColor};
 
 use crate::{
 	cli::build_cli,
-	config::{apply_cli_arguments, colour_choice::ColourChoice, Config},
+	config::{apply_cli_arguments, Config},
 	emv::{
 		auto_tlv::parse as parse_auto_tlv,
 		ber_tlv::parse as parse_ber_tlv,
@@ -106,17 +106,17 @@ fn main() {
 
 	let config_figment = apply_cli_arguments(Config::figment(), &matches);
 
-	let colour_choice = config_figment
-		.extract_inner::<ColourChoice>(Config::CLI_COLOUR)
-		.unwrap()
-		.change_based_on_tty()
-		.into();
-	let masking_characters = config_figment
-		.extract_inner::<Vec<char>>(Config::MASKING_CHARACTERS)
-		.unwrap();
-	let sort_parsed_tags = config_figment
-		.extract_inner::<bool>(Config::SORT_PARSED_TAGS)
-		.unwrap();
+	let config = match Config::try_from(config_figment) {
+		Ok(config) => config,
+		Err(error) => {
+			eprintln!("The configuration is invalid: {error}");
+			return;
+		}
+	};
+
+	let colour_choice = config.cli_colour.change_based_on_tty().into();
+	let masking_characters = config.masking_characters;
+	let sort_parsed_tags = config.sort_parsed_tags;
 
 	let mut stdout = StandardStream::stdout(colour_choice);
 
-- 
2.43.0


From 3db0aea67cd0ecbc4b754d44b7c3b2cbad06f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:51 +0000
Subject: [PATCH 4/5] fix: keep the bits of unknown CVM methods and conditions

The binary representation of CVM results showed an unknown method or condition
as all zeroes, which is the encoding of a different, known one.
---
 src/emv/cv_rule/cv_method.rs     | 17 ++++++++++++++---
 src/emv/cv_rule/cvm_condition.rs | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/emv/cv_rule/cv_method.rs b/src/emv/cv_rule/cv_method.rs
index 9c266a5..7d3871b 100644
--- a/src/emv/cv_rule/cv_method.rs
+++ b/src/emv/cv_rule/cv_method.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -26,15 +28,23 @@ pub enum CvMethod: u8, ParseError, { |_| ParseError::NonCompliant } {
 }
 
 /// A somewhat dumb workaround to have custom impls on [`Option<CvMethod>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvMethod {
 	pub internal: Option<CvMethod>,
+	/// The raw value, so that it isn't lost if it's unknown.
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	raw:          u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvMethod>> for OptionalCvMethod {
 	fn from(value: Option<CvMethod>) -> Self {
-		Self { internal: value }
+		Self {
+			internal: value,
+			raw:      value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -50,6 +60,7 @@ impl From<u8> for OptionalCvMethod {
 	fn from(value: u8) -> Self {
 		Self {
 			internal: CvMethod::try_from(value).ok(),
+			raw:      value,
 		}
 	}
 }
@@ -57,7 +68,7 @@ impl From<u8> for OptionalCvMethod {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvMethod> for u8 {
 	fn from(value: OptionalCvMethod) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.raw
 	}
 }
 
diff --git a/src/emv/cv_rule/cvm_condition.rs b/src/emv/cv_rule/cvm_condition.rs
index 27db84d..775b59a 100644
--- a/src/emv/cv_rule/cvm_condition.rs
+++ b/src/emv/cv_rule/cvm_condition.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -45,15 +47,23 @@ impl CvmCondition {
 
 /// A somewhat dumb workaround to have a [`Display`] impl on
 /// [`Option<CvmCondition>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvmCondition {
 	pub internal: Option<CvmCondition>,
+	/// The raw value, so that it isn't lost if it's unknown.
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	raw:          u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvmCondition>> for OptionalCvmCondition {
 	fn from(value: Option<CvmCondition>) -> Self {
-		Self { internal: value }
+		Self {
+			internal: value,
+			raw:      value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -69,6 +79,7 @@ impl From<u8> for OptionalCvmCondition {
 	fn from(value: u8) -> Self {
 		Self {
 			internal: CvmCondition::try_from(value).ok(),
+			raw:      value,
 		}
 	}
 }
@@ -76,7 +87,7 @@ impl From<u8> for OptionalCvmCondition {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvmCondition> for u8 {
 	fn from(value: OptionalCvmCondition) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.raw
 	}
 }
 
-- 
2.43.0


From 2e3daeb13e79db25a28839e2efa83893ae2a9dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:41 +0000
Subject: [PATCH 5/5] fix: refuse arguments that aren't valid UTF-8 instead of
 panicking

clap panics when an unknown option is followed by such an argument.
---
 src/main.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6f132bd..39be32e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,8 +49,9 @@ mod testing_macros;
 mod util;
 
 // Uses
-use std::fmt::Debug;
+use std::{env::args_os, fmt::Debug};
 
+use clap::error::ErrorKind;
 use termcolor::{StandardStream, WriteColor};
 
 use crate::{
@@ -102,6 +103,18 @@ pub trait DisplayBreakdown: Debug {
 #[cfg(not(tarpaulin_include))]
 fn main() {
 	let mut cli_definition = build_cli();
+
+	// Every argument is text, and `clap` panics if one that isn't follows an
+	// unknown option.
+	if args_os().skip(1).any(|argument| argument.to_str().is_none()) {
+		cli_definition
+			.error(
+				ErrorKind::InvalidUtf8,
+				"Invalid UTF-8 was detected in one or more arguments",
+			)
+			.exit();
+	}
+
 	let matches = cli_definition.clone().get_matches();
 
 	let config_figment = apply_cli_arguments(Config::figment(), &matches);
-- 
2.43.0

