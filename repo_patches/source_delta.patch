From 78bc4622f680577133bb882b138fc1b6fbeee14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 01/34] fix: report a truncated message or header instead of
 zero-filling it

---
 core/src/parser.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index f9623d6..a53d07b 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -150,6 +150,12 @@ impl<R: Read> ULogParser<R> {
     pub(crate) fn read_message(&mut self, msg_size: usize) -> Result<MessageBuf, ULogError> {
         let mut message: Vec<u8> = vec![0; msg_size];
         self.datastream.read_exact(&mut message)?;
+
+        // The stream ended inside the message. Don't make up the missing bytes.
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
+
         Ok(MessageBuf::from_vec(message))
     }
 
@@ -365,13 +371,18 @@ impl<R: Read> ULogParser<R> {
     fn read_message_header(&mut self) -> Result<Option<ULogMessageHeader>, ULogError> {
         let msg_size = self.datastream.read_u16()?;
 
-        // ⚠️This is the only place where we check for EOF when calling a datastream read method.
+        // ⚠️This is the only place where EOF is the regular end of the log.
         // If we encounter EOF anywhere else, it counts as a true 'Unexpected EOF' and is treated as an error.
         if self.datastream.eof {
             return Ok(None);
         }
 
         let msg_type = ULogMessageType::from(self.datastream.read_u8()?);
+
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
+
         log::trace!("MSG HEADER: {msg_size} {msg_type:?}");
 
         Ok(Some(ULogMessageHeader { msg_size, msg_type }))
@@ -565,6 +576,10 @@ impl<R: Read> ULogParser<R> {
         let mut msg_header = [0; 16];
         self.datastream.read_exact(&mut msg_header)?;
 
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
+
         if msg_header[0..7] != MAGIC {
             return Err(ULogError::InvalidMagicBits);
         }
-- 
2.43.0


From 1e68b554333c40a7dc54ca701eb0bb9dbc387c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 02/34] fix: yield tagged log strings as TaggedLoggedString

---
 core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index a53d07b..59c6c25 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -311,7 +311,7 @@ impl<R: Read> ULogParser<R> {
                 msg: String::from_utf8(message_buf.into_remaining_bytes())?,
             })),
             ULogMessageType::LOGGING_TAGGED => {
-                Ok(msg::UlogMessage::LoggedString(msg::LoggedString {
+                Ok(msg::UlogMessage::TaggedLoggedString(msg::LoggedString {
                     level: LogLevel::try_from(message_buf.take_u8()?)?,
                     tag: Some(message_buf.take_u16()?),
                     timestamp: message_buf.take_u64()?,
-- 
2.43.0


From 37dd5d64cbf9284c87614d76aa521a9bb276edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 03/34] fix: keep the msg_id in the contents of
 remove-subscription messages

---
 core/src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 59c6c25..9695c89 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -279,11 +279,13 @@ impl<R: Read> ULogParser<R> {
                 Ok(msg::UlogMessage::AddSubscription(sub))
             }
             ULogMessageType::REMOVE_SUBSCRIPTION => {
-                let msg_id = message_buf.take_u16()?;
+                // Unhandled messages carry their complete contents, including the msg_id.
+                let message_contents = message_buf.into_remaining_bytes();
+                let msg_id = MessageBuf::from_vec(message_contents.clone()).take_u16()?;
                 self.subscriptions.remove(&msg_id);
                 Ok(UlogMessage::Unhandled {
                     msg_type: message_type.into(),
-                    message_contents: message_buf.into_remaining_bytes(),
+                    message_contents,
                 })
             }
             ULogMessageType::DATA => {
-- 
2.43.0


From 847aadec6b793e53d8c7756048cf3f141e9be4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 04/34] fix: don't panic on numbers that overflow usize in a
 definition

---
 core/src/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/tokenizer.rs b/core/src/tokenizer.rs
index e74ba33..d8876fe 100644
--- a/core/src/tokenizer.rs
+++ b/core/src/tokenizer.rs
@@ -76,7 +76,11 @@ pub fn tokenize(input: &str) -> VecDeque<Token<'_>> {
         if let Some(identifier) = caps.name("identifier") {
             tokens.push_back(Token::Identifier(identifier.as_str()));
         } else if let Some(number) = caps.name("number") {
-            tokens.push_back(Token::Number(number.as_str().parse::<usize>().unwrap()));
+            match number.as_str().parse::<usize>() {
+                Ok(value) => tokens.push_back(Token::Number(value)),
+                // The number doesn't fit a usize, so it's not a usable token.
+                Err(_) => tokens.extend(number.as_str().chars().next().map(Token::Unknown)),
+            }
         } else if caps.name("colon").is_some() {
             tokens.push_back(Token::Colon);
         } else if caps.name("semicolon").is_some() {
-- 
2.43.0


From b70f9c2215eeb133d41a59ef7f3d2fc9f27725d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 05/34] fix: refuse unknown incompatible flags in the first
 byte too

---
 core/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 9695c89..52a5f54 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -676,8 +676,9 @@ impl<R: Read> ULogParser<R> {
         // Unwrap is ok because of the len of the array returned by advance is guaranteed to be 8.
         let incompat_flags: [u8; 8] = message_buf.advance(8)?.try_into().unwrap();
 
-        // Check for any unknown bits in incompat_flags
-        let has_unknown_incompat_bits = incompat_flags.iter().skip(1).any(|&f| f != 0);
+        // Check for any unknown bits in incompat_flags. Only DATA_APPENDED (bit 0 of the first byte) is known.
+        let has_unknown_incompat_bits =
+            incompat_flags[0] & !1 != 0 || incompat_flags.iter().skip(1).any(|&f| f != 0);
 
         if has_unknown_incompat_bits {
             return Err(ULogError::UnknownIncompatBits);
-- 
2.43.0


From 17a80c0574f9bcd0443900d528eebd4e13c8637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 06/34] fix: drop a msg_id from the allow-list when it is
 reused for an unlisted name

---
 core/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 52a5f54..cab8f97 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -67,6 +67,9 @@ impl SubscriptionFilter {
                     .as_mut()
                     .unwrap()
                     .insert(sub.msg_id);
+            } else if let Some(ids) = self.allowed_subscription_ids.as_mut() {
+                // The msg_id may have belonged to an allowed subscription before.
+                ids.remove(&sub.msg_id);
             }
         }
     }
-- 
2.43.0


From 372a2839bb08b04ef82fdf66b86675c0c856140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 07/34] fix: don't print heartbeat formats to stdout

---
 core/src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index cab8f97..540072d 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -217,10 +217,6 @@ impl<R: Read> ULogParser<R> {
 
                 match msg {
                     UlogMessage::FormatDefinition(ref format) => {
-                        if format.name.contains("heartbeat") {
-                            println!("Heartbeat {format}");
-                        }
-
                         self.formats.insert(format.name.clone(), Shared::new(format.clone()));
                     }
                     UlogMessage::AddSubscription(ref sub) => {
-- 
2.43.0


From 5b393572f3841c51cd47a314d0c71bfba56c3f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 08/34] fix: don't overflow when advancing a MessageBuf by a
 huge size

---
 core/src/message_buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/message_buf.rs b/core/src/message_buf.rs
index a0b8e6c..c797239 100644
--- a/core/src/message_buf.rs
+++ b/core/src/message_buf.rs
@@ -247,7 +247,7 @@ impl MessageBuf {
     /// A `Result` containing a reference to the next slice of bytes or an
     /// error message if there are not enough remaining bytes in the buffer.
     pub fn advance(&mut self, size: usize) -> Result<&[u8], ULogError> {
-        if self.current_index + size > self.buf.len() {
+        if size > self.buf.len() - self.current_index {
             Err(ULogError::ParseError(format!(
                 "MessageBuf: Out of bounds: tried to read {} bytes, but only {} remaining",
                 size,
-- 
2.43.0


From a0655c131015e9423f81d6d28f376678ec40abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 09/34] fix: don't write an empty message when encoding an
 ignored one

---
 core/src/encode.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index fe8b529..05f357b 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -19,6 +19,8 @@ impl Encode for UlogMessage {
                 writer.write_all(&header.to_bytes())?;
                 Ok(())
             }
+            // The contents of ignored messages were not kept, so there is nothing to write.
+            UlogMessage::Ignored { .. } => Ok(()),
             other => {
                 // Wrap in Message struct with size and type prefix
                 let mut content_buf = Vec::new();
-- 
2.43.0


From 0af567b8d62ce9d552db15933cafdb773162254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 10/34] fix: end the stream after a failed read instead of
 resuming at an unknown position

---
 core/src/parser.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 540072d..ec07a3f 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -177,6 +177,10 @@ impl<R: Read> ULogParser<R> {
                         //Fallthrough.
                     }
                 }
+                Err(ULogError::Io(err)) => {
+                    self.state = State::EOF;
+                    return Err(ULogError::Io(err));
+                }
                 Err(_) => {
                     self.state = State::ERROR;
                     return Err(ULogError::InvalidHeader);
@@ -200,15 +204,17 @@ impl<R: Read> ULogParser<R> {
             }
         }
 
-        let (message_type, message_buf) = match self.read_message_header()? {
-            None => {
+        let (message_type, message_buf) = match self.read_next_message() {
+            Ok(Some(message)) => message,
+            Ok(None) => {
                 self.state = State::EOF;
                 return Ok(None);
             }
-            Some(header) => (
-                header.msg_type,
-                self.read_message(header.msg_size as usize)?,
-            ),
+            Err(e) => {
+                // An unknown number of bytes was lost, so there is no way to find the next message.
+                self.state = State::EOF;
+                return Err(e);
+            }
         };
 
         match self.state {
@@ -369,6 +375,15 @@ impl<R: Read> ULogParser<R> {
         })
     }
 
+    fn read_next_message(&mut self) -> Result<Option<(ULogMessageType, MessageBuf)>, ULogError> {
+        let Some(header) = self.read_message_header()? else {
+            return Ok(None);
+        };
+        let message_buf = self.read_message(header.msg_size as usize)?;
+
+        Ok(Some((header.msg_type, message_buf)))
+    }
+
     fn read_message_header(&mut self) -> Result<Option<ULogMessageHeader>, ULogError> {
         let msg_size = self.datastream.read_u16()?;
 
-- 
2.43.0


From 5f6733b44d59749e26b7d9b6b0efbcc22aef52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 11/34] fix: don't read a message that reaches past the
 appended-data offset

---
 core/src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index ec07a3f..ff88d23 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -379,7 +379,16 @@ impl<R: Read> ULogParser<R> {
         let Some(header) = self.read_message_header()? else {
             return Ok(None);
         };
-        let message_buf = self.read_message(header.msg_size as usize)?;
+        let msg_size = header.msg_size as usize;
+
+        // A message can't reach into the appended data.
+        if let Some(max_bytes_to_read) = self.max_bytes_to_read {
+            if self.datastream.num_bytes_read.saturating_add(msg_size) > max_bytes_to_read {
+                return Err(ULogError::UnexpectedEndOfFile);
+            }
+        }
+
+        let message_buf = self.read_message(msg_size)?;
 
         Ok(Some((header.msg_type, message_buf)))
     }
-- 
2.43.0


From b61116a250a5f9ed55ef5e9bfa56f6f5231e44cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 12/34] fix: decode log strings and dropouts before the first
 subscription

---
 core/src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index ff88d23..eb38da6 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -662,6 +662,10 @@ impl<R: Read> ULogParser<R> {
                 let multi_info = self.parse_multi_info(message_buf)?;
                 Ok(msg::UlogMessage::MultiInfo(multi_info))
             }
+            // These may appear before the first subscription as well.
+            ULogMessageType::LOGGING
+            | ULogMessageType::LOGGING_TAGGED
+            | ULogMessageType::DROPOUT => self.parse_data(message_type, message_buf),
             /*
             ULogMessageType::INFO_MULTIPLE | ULogMessageType::PARAMETER_DEFAULT => {
                 Ok(UlogMessage::Unhandled { msg_type: message_type.into(), message_contents: message_buf.into_remaining_bytes() })
-- 
2.43.0


From 62da109f3d5ed52ed2ccfaba2efa51903f852506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 13/34] fix: consume padding according to its type

---
 core/src/formats.rs | 18 +++++++++++++++++
 core/src/parser.rs  | 47 ++++++++++++++++++++++++---------------------
 2 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/core/src/formats.rs b/core/src/formats.rs
index f9de917..3a90345 100644
--- a/core/src/formats.rs
+++ b/core/src/formats.rs
@@ -79,6 +79,24 @@ pub(crate) fn parse_field(token_list: &mut TokenList) -> Result<def::Field, ULog
     })
 }
 
+impl def::TypeExpr {
+    /// The number of bytes a value of this type takes, or `None` for a nested format.
+    pub(crate) fn primitive_size(&self) -> Option<usize> {
+        let size: usize = match self.base_type {
+            def::BaseType::INT8
+            | def::BaseType::UINT8
+            | def::BaseType::BOOL
+            | def::BaseType::CHAR => 1,
+            def::BaseType::INT16 | def::BaseType::UINT16 => 2,
+            def::BaseType::INT32 | def::BaseType::UINT32 | def::BaseType::FLOAT => 4,
+            def::BaseType::INT64 | def::BaseType::UINT64 | def::BaseType::DOUBLE => 8,
+            def::BaseType::OTHER(_) => return None,
+        };
+
+        Some(size.saturating_mul(self.array_size.unwrap_or(1)))
+    }
+}
+
 impl def::BaseType {
     pub fn from_string(string: &str) -> def::BaseType {
         match string {
diff --git a/core/src/parser.rs b/core/src/parser.rs
index eb38da6..e4955d9 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -502,32 +502,35 @@ impl<R: Read> ULogParser<R> {
         field: &def::Field,
         message_buf: &mut MessageBuf,
     ) -> Result<Option<inst::Field>, ULogError> {
-        let Some(array_size) = field.r#type.array_size else {
-            log::warn!("Encountered padding, and type is scalar. Ignoring.");
-            return Ok(None);
+        let remaining = message_buf.len();
+
+        // The number of bytes depends on the type, although padding is usually an array of uint8_t.
+        let is_present = match field.r#type.primitive_size() {
+            Some(size) => size <= remaining,
+            None => remaining > 0,
         };
-        
-        if array_size <= message_buf.len() {
-            log::debug!("Encountered padding, and padding <= message.len(). Ok.");
-
-            if self.include_padding {
-                let array = message_buf.advance(array_size)?.to_vec();
-                return Ok( Some( inst::Field {
-                    name: Shared::from(field.name.clone()),
-                    r#type: field.r#type.clone(),
-                    value: inst::FieldValue::ArrayU8(array),
-                }));
-            } else {
-                //Skip over the padding bytes.
-                message_buf.skip(array_size)?;
-            }
-        } else {
-            match message_buf.len() {
+
+        if !is_present {
+            match remaining {
                 0 => log::debug!("Encountered padding, and message.len() == 0. Ignoring as per ULOG spec."),
-                _ => log::error!("Encountered padding, and padding > message.len(). Ignoring and hoping for the best"),
+                _ => log::error!("Encountered padding, and padding > message.len(). Skipping what is left of it."),
             }
+            message_buf.skip(remaining)?;
+            return Ok(None);
         }
-        Ok(None)
+
+        log::debug!("Encountered padding, and padding <= message.len(). Ok.");
+        let value = self.parse_field_value(field, message_buf)?;
+
+        if !self.include_padding {
+            return Ok(None);
+        }
+
+        Ok(Some(inst::Field {
+            name: Shared::from(field.name.clone()),
+            r#type: field.r#type.clone(),
+            value,
+        }))
     }
 
     fn parse_field_value(
-- 
2.43.0


From aefed4bcafc363401a410ea4eedff89f5d330340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 14/34] fix: don't allocate arrays larger than the message

---
 core/src/field_helpers.rs | 4 +++-
 core/src/parser.rs        | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/src/field_helpers.rs b/core/src/field_helpers.rs
index 0ec5638..cc44e81 100644
--- a/core/src/field_helpers.rs
+++ b/core/src/field_helpers.rs
@@ -82,7 +82,9 @@ pub fn parse_array<T, F>(
 where
     F: FnMut(&mut MessageBuf) -> Result<T, ULogError>,
 {
-    let mut array = Vec::with_capacity(array_size);
+    // The size comes from the log, so don't reserve more memory than the message could fill.
+    let capacity = message_buf.len() / std::mem::size_of::<T>().max(1);
+    let mut array = Vec::with_capacity(array_size.min(capacity));
     for _ in 0..array_size {
         array.push(parse_element(message_buf)?);
     }
diff --git a/core/src/parser.rs b/core/src/parser.rs
index e4955d9..03635c1 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -578,6 +578,15 @@ impl<R: Read> ULogParser<R> {
         use def::BaseType::*;
         use inst::FieldValue::*;
 
+        // Don't allocate an array that the message can't fill.
+        if field.r#type.primitive_size().is_some_and(|size| size > message_buf.len()) {
+            return Err(ULogError::ParseError(format!(
+                "Field {} has {array_size} elements, but only {} bytes remain in the message",
+                field.name,
+                message_buf.len()
+            )));
+        }
+
         Ok(match &field.r#type.base_type {
             UINT8 => ArrayU8(parse_primitive_array(array_size, message_buf)?),
             UINT16 => ArrayU16(parse_primitive_array(array_size, message_buf)?),
-- 
2.43.0


From 3fc6d0e4cc3cddf178c4a38b12cef632f52bdd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 15/34] fix: limit the nesting of formats while decoding a
 message

---
 core/src/parser.rs | 71 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 62 insertions(+), 9 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 03635c1..58025a1 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -82,6 +82,45 @@ impl SubscriptionFilter {
     }
 }
 
+/// Limits the work done for one message, so that recursive or exponentially nested
+/// format definitions are an error rather than exhausting the stack or the memory.
+struct DecodeLimits {
+    depth: usize,
+    instances: usize,
+}
+
+impl DecodeLimits {
+    const MAX_DEPTH: usize = 32;
+
+    fn new(message_buf: &MessageBuf) -> Self {
+        Self {
+            depth: Self::MAX_DEPTH,
+            // Most fields take at least one byte, so this is plenty for sensible definitions.
+            instances: 16384 + 4 * message_buf.len(),
+        }
+    }
+
+    fn enter(&mut self, format: &def::Format) -> Result<(), ULogError> {
+        // An instance costs as much as its fields.
+        let cost = 1 + format.fields.len();
+
+        if self.depth == 0 || self.instances < cost {
+            return Err(ULogError::ParseError(format!(
+                "Format {} is nested too deeply or too often",
+                format.name
+            )));
+        }
+
+        self.depth -= 1;
+        self.instances -= cost;
+        Ok(())
+    }
+
+    fn leave(&mut self) {
+        self.depth += 1;
+    }
+}
+
 #[allow(clippy::upper_case_acronyms)]
 #[derive(Debug, PartialEq, Eq, Copy, Clone)]
 enum State {
@@ -425,7 +464,9 @@ impl<R: Read> ULogParser<R> {
             return Err(ULogError::MissingTimestamp);
         }
 
-        let mut data_format = self.parse_data_message_sub(format, &mut message_buf)?;
+        let mut limits = DecodeLimits::new(&message_buf);
+        let mut data_format =
+            self.parse_data_message_sub(format, &mut message_buf, &mut limits)?;
 
         if self.message_name_with_multi_id.contains(&sub.message_name) {
             data_format.multi_id_index = Some(sub.multi_id);
@@ -451,20 +492,23 @@ impl<R: Read> ULogParser<R> {
         &self,
         format: Shared<def::Format>,
         message_buf: &mut MessageBuf,
+        limits: &mut DecodeLimits,
     ) -> Result<inst::Format, ULogError> {
+        limits.enter(&format)?;
+
         let mut fields: Vec<inst::Field> = Vec::with_capacity(format.fields.len());
         let mut timestamp: Option<u64> = None;
 
         for field in &format.fields {
             // Handle padding fields.
             if field.name.starts_with("_padding") {
-                if let Some(padding_field) = self.parse_padding(field, message_buf)? {
+                if let Some(padding_field) = self.parse_padding(field, message_buf, limits)? {
                     fields.push(padding_field);
                 }
                 continue;
             }
 
-            let value: inst::FieldValue = self.parse_field_value(field, message_buf)?;
+            let value: inst::FieldValue = self.parse_field_value(field, message_buf, limits)?;
 
             // ⚠️ Extract the timestamp field if present.
             // According to the ULOG spec, the timestamp for a LOGGED_DATA message is the value of
@@ -485,6 +529,8 @@ impl<R: Read> ULogParser<R> {
             });
         }
 
+        limits.leave();
+
         Ok(inst::Format {
             name: format.name.clone(),
             timestamp,
@@ -501,6 +547,7 @@ impl<R: Read> ULogParser<R> {
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        limits: &mut DecodeLimits,
     ) -> Result<Option<inst::Field>, ULogError> {
         let remaining = message_buf.len();
 
@@ -520,7 +567,7 @@ impl<R: Read> ULogParser<R> {
         }
 
         log::debug!("Encountered padding, and padding <= message.len(). Ok.");
-        let value = self.parse_field_value(field, message_buf)?;
+        let value = self.parse_field_value(field, message_buf, limits)?;
 
         if !self.include_padding {
             return Ok(None);
@@ -537,6 +584,7 @@ impl<R: Read> ULogParser<R> {
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        limits: &mut DecodeLimits,
     ) -> Result<inst::FieldValue, ULogError> {
         match field.r#type.array_size {
             None => {
@@ -559,13 +607,13 @@ impl<R: Read> ULogParser<R> {
                     OTHER(type_name) => {
                         let child_format = self.get_format(type_name)?;
                         ScalarOther(
-                            self.parse_data_message_sub(child_format, message_buf)?
+                            self.parse_data_message_sub(child_format, message_buf, limits)?
                                 .into(),
                         )
                     }
                 })
             }
-            Some(array_size) => self.parse_array_field(field, array_size, message_buf),
+            Some(array_size) => self.parse_array_field(field, array_size, message_buf, limits),
         }
     }
 
@@ -574,6 +622,7 @@ impl<R: Read> ULogParser<R> {
         field: &def::Field,
         array_size: usize,
         message_buf: &mut MessageBuf,
+        limits: &mut DecodeLimits,
     ) -> Result<inst::FieldValue, ULogError> {
         use def::BaseType::*;
         use inst::FieldValue::*;
@@ -603,7 +652,7 @@ impl<R: Read> ULogParser<R> {
             OTHER(type_name) => {
                 let child_format = &self.get_format(type_name)?;
                 ArrayOther(parse_array(array_size, message_buf, |buf| {
-                    self.parse_data_message_sub(child_format.clone(), buf)
+                    self.parse_data_message_sub(child_format.clone(), buf, limits)
                 })?)
             }
         })
@@ -742,7 +791,9 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let mut limits = DecodeLimits::new(&message_buf);
+        let value: inst::FieldValue =
+            self.parse_field_value(&field, &mut message_buf, &mut limits)?;
 
         log::debug!("INFO {:?} {}:\t{}", field.r#type, &field.name, value);
 
@@ -763,7 +814,9 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let mut limits = DecodeLimits::new(&message_buf);
+        let value: inst::FieldValue =
+            self.parse_field_value(&field, &mut message_buf, &mut limits)?;
 
         log::debug!("MULTI_INFO {:?} {}:\t{}", field.r#type, &field.name, value);
         log::debug!("is_continued = {is_continued}");
-- 
2.43.0


From 76d337cc2efbfbed112cfd428a275d9d00a869fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 16/34] fix: refuse to encode content or keys that exceed their
 length field

---
 core/src/encode.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index 05f357b..ba877ec 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -26,7 +26,8 @@ impl Encode for UlogMessage {
                 let mut content_buf = Vec::new();
                 other.encode_content(&mut content_buf)?;
 
-                let msg_size = content_buf.len() as u16;
+                let msg_size = u16::try_from(content_buf.len())
+                    .map_err(|_| too_long("Message content", content_buf.len()))?;
                 writer.write_all(&msg_size.to_le_bytes())?;
                 writer.write_all(&[u8::from(other.message_type())])?;
                 writer.write_all(&content_buf)?;
@@ -122,8 +123,7 @@ impl Encode for msg::Info {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
-        writer.write_all(&key_bytes)?;
+        write_key(writer, &key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
     }
@@ -139,8 +139,7 @@ impl Encode for msg::MultiInfo {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
-        writer.write_all(&key_bytes)?;
+        write_key(writer, &key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
     }
@@ -154,8 +153,7 @@ impl Encode for msg::Parameter {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
-        writer.write_all(&key_bytes)?;
+        write_key(writer, &key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
     }
@@ -171,8 +169,7 @@ impl Encode for msg::DefaultParameter {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
-        writer.write_all(&key_bytes)?;
+        write_key(writer, &key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
     }
@@ -400,6 +397,20 @@ impl Encode for inst::ParameterValue {
 
 // ------------------------ Helpers ------------------------
 
+fn too_long(what: &str, len: usize) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::InvalidInput,
+        format!("{what} is too long to be encoded ({len} bytes)"),
+    )
+}
+
+// The length of a typed key is stored in a single byte.
+fn write_key<W: Write>(writer: &mut W, key_bytes: &[u8]) -> io::Result<()> {
+    let key_len = u8::try_from(key_bytes.len()).map_err(|_| too_long("Key", key_bytes.len()))?;
+    writer.write_all(&[key_len])?;
+    writer.write_all(key_bytes)
+}
+
 impl<T: Encode> Encode for &T {
     fn encode<W: Write>(&self, writer: &mut W) -> io::Result<()> {
         (*self).encode(writer)
-- 
2.43.0


From 420dbf1949aa612858a48665155797b4520799f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 17/34] fix: accept '-' and '/' in message names as the ULog
 specification does

---
 core/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/tokenizer.rs b/core/src/tokenizer.rs
index d8876fe..7d7289e 100644
--- a/core/src/tokenizer.rs
+++ b/core/src/tokenizer.rs
@@ -6,7 +6,7 @@ use crate::errors::ULogError;
 
 lazy_static! {
     static ref TOKEN_REGEXP: Regex = Regex::new(
-        r"(?P<identifier>[a-zA-Z_][a-zA-Z0-9_]*)|(?P<number>[0-9]+)|(?P<colon>:)|(?P<semicolon>;)|(?P<lbrace>\[)|(?P<rbrace>\])|(?P<whitespace>\s+)|(?P<unknown>.)"
+        r"(?P<identifier>[a-zA-Z_][a-zA-Z0-9_/-]*)|(?P<number>[0-9]+)|(?P<colon>:)|(?P<semicolon>;)|(?P<lbrace>\[)|(?P<rbrace>\])|(?P<whitespace>\s+)|(?P<unknown>.)"
     )
     .unwrap();
 }
-- 
2.43.0


From 1cf33e4aae07432b046a48f23d1d654d664e02a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 18/34] fix: forget the old accessor when a msg_id is
 subscribed again

---
 macros/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 733d2fd..93e5a7b 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -669,6 +669,9 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
                     match msg {
                         UlogMessage::AddSubscription(sub) => {
+                            // The msg_id may have belonged to a different subscription before.
+                            self.subs.remove(&sub.msg_id);
+
                             match (sub.message_name.as_str(), sub.multi_id) {
                                 #( #add_subscription_arms )*
                                 _ => {
-- 
2.43.0


From 6cb98f4e6338ccb6dc6d400cbc4074cad03b789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 19/34] fix: use the annotated enum and variant names instead
 of LoggedMessages::Other

---
 macros/src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 93e5a7b..6ce8fb5 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -513,23 +513,23 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
     let has_forward_other = forward_other_variant_ident.is_some();
 
-    let extra_logged_msg_conditional = match has_forward_other {
-        true => quote! {
+    let extra_logged_msg_conditional = match &forward_other_variant_ident {
+        Some(forward_ident) => quote! {
             else {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::LoggedData(data))));
+                return Some(Ok(#enum_name::#forward_ident(UlogMessage::LoggedData(data))));
             }
         },
-        false => quote! {},
+        None => quote! {},
     };
 
-    let extra_subscription_forwarder = match has_forward_other {
-        true => quote! {
+    let extra_subscription_forwarder = match &forward_other_variant_ident {
+        Some(forward_ident) => quote! {
             // forward unhandled subscription messages when the user requested them.
             if self.forward_subscriptions {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::AddSubscription(sub))));
+                return Some(Ok(#enum_name::#forward_ident(UlogMessage::AddSubscription(sub))));
             }
         },
-        false => quote! {},
+        None => quote! {},
     };
 
     let expanded = quote! {
-- 
2.43.0


From b29552ee38050b99f448cf588a419862e7bf1e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 20/34] fix: don't panic in derived accessors when trailing
 padding is omitted

---
 macros/src/lib.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 6ce8fb5..da3ebfe 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -148,6 +148,13 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         Ident::new(&format!("{name}_index"), name.span())
     }
 
+    fn ulog_name(f: &syn::Field) -> String {
+        // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
+        let attr = LoggedFieldAttr::from_field(f).unwrap();
+        attr.field_name
+            .unwrap_or_else(|| named_ident(f).to_string())
+    }
+
     fn idx_type(f: &syn::Field) -> Type {
         // If the user type is an Option<T>, will generate Option<usize>
         // otherwise usize.
@@ -164,12 +171,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     let accessor_struct = {
         let idx_field_exprs = fields.iter().map(|f| {
             let idx_ident = idx_ident(f);
-            let ulog_name = {
-                // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
-                let attr = LoggedFieldAttr::from_field(f).unwrap();
-                attr.field_name
-                    .unwrap_or_else(|| named_ident(f).to_string())
-            };
+            let ulog_name = ulog_name(f);
 
             if is_option_type(&make_index_type(f)) {
                 quote! {
@@ -249,12 +251,24 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                 quote! {
                     #name: match self.#idx_ident {
                         None => None,
-                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(&format.fields[idx])?)
+                        // A field at the end of the message may be omitted, e.g. if it is padding.
+                        Some(idx) => match format.fields.get(idx) {
+                            None => None,
+                            Some(field) => Some(<#inner_ty as #from_field_path>::from_field(field)?),
+                        }
                     }
                 }
             } else {
+                let ulog_name = ulog_name(f);
+
                 quote! {
-                    #name: <#ty as #from_field_path>::from_field(&format.fields[self.#idx_ident])?
+                    #name: match format.fields.get(self.#idx_ident) {
+                        // A field at the end of the message may be omitted, e.g. if it is padding.
+                        None => return Err(yule_log::errors::ULogError::InvalidFieldName(
+                            format!("{} is missing in a message of format `{}`", #ulog_name, format.name)
+                        )),
+                        Some(field) => <#ty as #from_field_path>::from_field(field)?,
+                    }
                 }
             }
         });
-- 
2.43.0


From a59dc1e0309903f8849690f34bab4e5adb0369c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 21/34] fix: support raw identifiers in the derives

---
 macros/src/lib.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index da3ebfe..a0ac3b8 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -41,6 +41,7 @@ use darling::FromVariant;
 use heck::ToSnakeCase;
 use proc_macro::TokenStream;
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{DeriveInput, Ident, Type};
 //
@@ -132,10 +133,10 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     };
     let subscription = attr
         .subscription_name
-        .unwrap_or_else(|| struct_name.to_string().to_snake_case());
+        .unwrap_or_else(|| struct_name.unraw().to_string().to_snake_case());
     let multi_id = attr.multi_id.unwrap_or(0);
 
-    let accessor_name = Ident::new(&format!("{struct_name}Accessor"), struct_name.span());
+    let accessor_name = Ident::new(&format!("{}Accessor", struct_name.unraw()), struct_name.span());
 
     fn named_ident(f: &syn::Field) -> &syn::Ident {
         #[allow(clippy::unwrap_used)]
@@ -145,14 +146,14 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
 
     fn idx_ident(f: &syn::Field) -> Ident {
         let name = named_ident(f);
-        Ident::new(&format!("{name}_index"), name.span())
+        Ident::new(&format!("{}_index", name.unraw()), name.span())
     }
 
     fn ulog_name(f: &syn::Field) -> String {
         // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
         let attr = LoggedFieldAttr::from_field(f).unwrap();
         attr.field_name
-            .unwrap_or_else(|| named_ident(f).to_string())
+            .unwrap_or_else(|| named_ident(f).unraw().to_string())
     }
 
     fn idx_type(f: &syn::Field) -> Type {
@@ -425,15 +426,15 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         .collect();
 
     let accessor_enum_name = Ident::new(
-        &format!("__yule_log_derive_{enum_name}Accessor"),
+        &format!("__yule_log_derive_{}Accessor", enum_name.unraw()),
         enum_name.span(),
     );
 
     let hidden_struct_name =
-        Ident::new(&format!("__yule_log_derive_{enum_name}"), enum_name.span());
+        Ident::new(&format!("__yule_log_derive_{}", enum_name.unraw()), enum_name.span());
 
     let builder_struct_name = Ident::new(
-        &format!("__yule_log_derive_{enum_name}Builder"),
+        &format!("__yule_log_derive_{}Builder", enum_name.unraw()),
         enum_name.span(),
     );
 
@@ -447,7 +448,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
             #[allow(clippy::unwrap_used)]
             // Safe: syn::Type::Path always has at least one segment for a valid Rust struct type.
             let ident = &type_path.path.segments.last().unwrap().ident;
-            let name = format!("{ident}Accessor");
+            let name = format!("{}Accessor", ident.unraw());
             Ok(Ident::new(&name, span))
         } else {
             Err(syn::Error::new(
-- 
2.43.0


From 37ee68c3ec040ff48ceeff79c0d7a19fa3f326ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 22/34] fix: let forward_subscriptions(false) turn forwarding
 off again

---
 macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index a0ac3b8..cf84c2a 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -612,10 +612,10 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                                 "Cannot forward subscriptions messages because there is no #[yule_log(forward_other)] variant configured to receive them.".to_string()
                             ));
                         }
-                        self.forward_subscriptions = true;
                     }
                     false => {}
                 }
+                self.forward_subscriptions = value;
 
                 Ok(self)
             }
-- 
2.43.0


From 0e11c30a8995bddda8f6e0b3dd107126abad9a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 23/34] fix: compile derived structs that have only optional
 fields

---
 macros/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index cf84c2a..922ac51 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -201,7 +201,8 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                         .map(|(i, f)| (f.name.clone(), i))
                         .collect();
 
-                let mut missing = Vec::new();
+                #[allow(unused_mut)]
+                let mut missing: Vec<&'static str> = Vec::new();
 
                 let result = Self {
                     #( #idx_field_exprs ),*
-- 
2.43.0


From 2823d528744ae3a3d681160ba3590d6d22f8f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 24/34] fix: let the enum live in a different module than its
 structs

---
 macros/src/lib.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 922ac51..2f82081 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -282,8 +282,10 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         #[doc = "Optional #[yule_log(multi_id = N)] selects a multi-instance subscription."]
         #[automatically_derived]
         impl #struct_name {
-            const __YULE_LOG_SUBSCRIPTION: &'static str = #subscription;
-            const __YULE_LOG_MULTI_ID: u8 = #multi_id;
+            #[doc(hidden)]
+            pub const __YULE_LOG_SUBSCRIPTION: &'static str = #subscription;
+            #[doc(hidden)]
+            pub const __YULE_LOG_MULTI_ID: u8 = #multi_id;
         }
 
         #[doc = "Accessor type for efficiently retrieving fields from this message type."]
@@ -439,18 +441,15 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         enum_name.span(),
     );
 
-    /// Generate an accessor name for an enum variant wrapping a single struct.
+    /// Generate the accessor type for an enum variant wrapping a single struct.
     /// Fails at compile time if the type is not a simple struct path.
-    fn generate_accessor_name(
+    fn generate_accessor_type(
         ty: &syn::Type,
         span: proc_macro2::Span,
-    ) -> Result<Ident, syn::Error> {
-        if let syn::Type::Path(type_path) = ty {
-            #[allow(clippy::unwrap_used)]
-            // Safe: syn::Type::Path always has at least one segment for a valid Rust struct type.
-            let ident = &type_path.path.segments.last().unwrap().ident;
-            let name = format!("{}Accessor", ident.unraw());
-            Ok(Ident::new(&name, span))
+    ) -> Result<proc_macro2::TokenStream, syn::Error> {
+        if let syn::Type::Path(_) = ty {
+            // Not named directly, because it need not be in scope where the struct is.
+            Ok(quote! { <#ty as ::yule_log::macro_utils::ULogAccessorFactory>::Accessor })
         } else {
             Err(syn::Error::new(
                 span,
@@ -463,8 +462,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     let accessor_enum_variants: Result<Vec<_>, syn::Error> = filtered_variants
         .iter()
         .map(|(var, ty)| {
-            generate_accessor_name(ty, ty.span())
-                .map(|accessor_ident| quote! { #var(#accessor_ident) })
+            generate_accessor_type(ty, ty.span()).map(|accessor| quote! { #var(#accessor) })
         })
         .collect();
 
-- 
2.43.0


From 9f4cf3b43c9cb5c73b9864834a2b7172eb63a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 25/34] fix: compile the derives for private structs

---
 macros/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 2f82081..5ec2393 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -125,6 +125,8 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     }
 
     let struct_name = &input.ident;
+    // The accessor must not be more visible than the struct it produces.
+    let vis = &input.vis;
 
     // Parse optional subscription name + multi_id
     let attr = match LoggedStructAttr::from_derive_input(&input) {
@@ -290,7 +292,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
 
         #[doc = "Accessor type for efficiently retrieving fields from this message type."]
         #[automatically_derived]
-        pub struct #accessor_name {
+        #vis struct #accessor_name {
             #( #index_fields ),*
         }
 
-- 
2.43.0


From d2a96414891d62dc26565edb7a51ee24f372ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:32 +0000
Subject: [PATCH 26/34] fix: let user types have the names of yule_log's own
 types

---
 macros/src/lib.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 5ec2393..bea2896 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -225,7 +225,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         }
     };
 
-    let from_field_path: syn::Path = syn::parse_str("FromField").unwrap();
+    let from_field_path: syn::Path = syn::parse_str("::yule_log::macro_utils::FromField").unwrap();
 
     // Generate get_data fields using the FromField trait.
     //
@@ -322,8 +322,6 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
             fn get_data(&self, format: &yule_log::model::inst::Format)
                 -> Result<Self::Output, yule_log::errors::ULogError>
             {
-                use ::yule_log::macro_utils::FromField;
-
                 Ok(#struct_name {
                     #( #get_data_fields ),*
                 })
@@ -532,7 +530,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     let extra_logged_msg_conditional = match &forward_other_variant_ident {
         Some(forward_ident) => quote! {
             else {
-                return Some(Ok(#enum_name::#forward_ident(UlogMessage::LoggedData(data))));
+                return Some(Ok(#enum_name::#forward_ident(::yule_log::model::msg::UlogMessage::LoggedData(data))));
             }
         },
         None => quote! {},
@@ -542,7 +540,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         Some(forward_ident) => quote! {
             // forward unhandled subscription messages when the user requested them.
             if self.forward_subscriptions {
-                return Some(Ok(#enum_name::#forward_ident(UlogMessage::AddSubscription(sub))));
+                return Some(Ok(#enum_name::#forward_ident(::yule_log::model::msg::UlogMessage::AddSubscription(sub))));
             }
         },
         None => quote! {},
@@ -673,9 +671,8 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
             type Item = Result<#enum_name, yule_log::errors::ULogError>;
 
             fn next(&mut self) -> Option<Self::Item> {
-                use ::yule_log::macro_utils::ULogAccessorFactory;
-                use ::yule_log::model::msg::UlogMessage;
-                use ::yule_log::macro_utils::ULogAccessor;
+                // Don't bring any name into scope that the user's types may also have.
+                use ::yule_log::macro_utils::ULogAccessor as _;
 
                 while let Some(msg_res) = self.parser.next() {
                     let msg = match msg_res {
@@ -684,7 +681,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                     };
 
                     match msg {
-                        UlogMessage::AddSubscription(sub) => {
+                        ::yule_log::model::msg::UlogMessage::AddSubscription(sub) => {
                             // The msg_id may have belonged to a different subscription before.
                             self.subs.remove(&sub.msg_id);
 
@@ -696,7 +693,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                             }
                             // Continue looping; don't yield yet
                         }
-                        UlogMessage::LoggedData(data) => {
+                        ::yule_log::model::msg::UlogMessage::LoggedData(data) => {
                             if let Some(acc) = self.subs.get(&data.msg_id) {
                                 return Some(match acc {
                                     #( #logged_data_arms ),*
-- 
2.43.0


From b419d15d0aca295ba32273f08eb5b387f934be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 27/34] fix: find mapped fields that stand behind omitted
 padding

---
 core/src/macro_utils.rs | 12 ++++++++++++
 macros/src/lib.rs       |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/src/macro_utils.rs b/core/src/macro_utils.rs
index e3a4780..40bc117 100644
--- a/core/src/macro_utils.rs
+++ b/core/src/macro_utils.rs
@@ -16,6 +16,18 @@ pub trait ULogAccessor {
     fn get_data(&self, field: &inst::Format) -> Result<Self::Output, ULogError>;
 }
 
+/// Returns the field at the given index of the format definition, or `None` if the message doesn't
+/// contain it.
+pub fn field_at(format: &inst::Format, index: usize) -> Option<&inst::Field> {
+    if format.fields.len() == format.def_format.fields.len() {
+        return format.fields.get(index);
+    }
+
+    // Padding was omitted, so the fields behind it (which take no space) have moved up.
+    let name = &format.def_format.fields.get(index)?.name;
+    format.fields.iter().rfind(|f| f.name == *name)
+}
+
 /// FromField
 ///
 /// Converts an inst::Field to the specified type, with runtime
diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index bea2896..bbd9656 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -256,7 +256,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                     #name: match self.#idx_ident {
                         None => None,
                         // A field at the end of the message may be omitted, e.g. if it is padding.
-                        Some(idx) => match format.fields.get(idx) {
+                        Some(idx) => match ::yule_log::macro_utils::field_at(format, idx) {
                             None => None,
                             Some(field) => Some(<#inner_ty as #from_field_path>::from_field(field)?),
                         }
@@ -266,7 +266,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                 let ulog_name = ulog_name(f);
 
                 quote! {
-                    #name: match format.fields.get(self.#idx_ident) {
+                    #name: match ::yule_log::macro_utils::field_at(format, self.#idx_ident) {
                         // A field at the end of the message may be omitted, e.g. if it is padding.
                         None => return Err(yule_log::errors::ULogError::InvalidFieldName(
                             format!("{} is missing in a message of format `{}`", #ulog_name, format.name)
-- 
2.43.0


From 82cba653b51d0685ba11e2b1d87a58e24991c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 28/34] fix: let user types be named R

The derived stream's impls named their type parameter R, which hid an enum or
message struct of that name.
---
 macros/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index bbd9656..1edb243 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -637,8 +637,9 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         }
 
         #[automatically_derived]
-        impl<R: std::io::Read> #hidden_struct_name<R> {
-            fn new(reader: R) -> Result<Self, yule_log::errors::ULogError> {
+        // The type parameter must not have the name of a user's type.
+        impl<__YuleLogReader: std::io::Read> #hidden_struct_name<__YuleLogReader> {
+            fn new(reader: __YuleLogReader) -> Result<Self, yule_log::errors::ULogError> {
                 let mut parser = yule_log::builder::ULogParserBuilder::new(reader)
                     .include_timestamp(true)
                     .include_padding(true)
@@ -667,7 +668,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         }
 
         #[automatically_derived]
-        impl<R: std::io::Read> Iterator for #hidden_struct_name<R> {
+        impl<__YuleLogReader: std::io::Read> Iterator for #hidden_struct_name<__YuleLogReader> {
             type Item = Result<#enum_name, yule_log::errors::ULogError>;
 
             fn next(&mut self) -> Option<Self::Item> {
-- 
2.43.0


From 16c6119bc0c1519be33cf5bced1e5bc4a83f5d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 29/34] fix: give the derived types names that cannot collide

Two enums Foo and FooBuilder (or FooAccessor) in one module, or a struct Foo
next to a FooAccessor, made the derives define the same name twice.
---
 macros/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 1edb243..c135579 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -138,7 +138,10 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         .unwrap_or_else(|| struct_name.unraw().to_string().to_snake_case());
     let multi_id = attr.multi_id.unwrap_or(0);
 
-    let accessor_name = Ident::new(&format!("{}Accessor", struct_name.unraw()), struct_name.span());
+    let accessor_name = Ident::new(
+        &format!("__yule_log_derive_accessor_{}", struct_name.unraw()),
+        struct_name.span(),
+    );
 
     fn named_ident(f: &syn::Field) -> &syn::Ident {
         #[allow(clippy::unwrap_used)]
@@ -291,6 +294,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         }
 
         #[doc = "Accessor type for efficiently retrieving fields from this message type."]
+        #[allow(non_camel_case_types)]
         #[automatically_derived]
         #vis struct #accessor_name {
             #( #index_fields ),*
@@ -429,15 +433,15 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         .collect();
 
     let accessor_enum_name = Ident::new(
-        &format!("__yule_log_derive_{}Accessor", enum_name.unraw()),
+        &format!("__yule_log_derive_accessor_{}", enum_name.unraw()),
         enum_name.span(),
     );
 
     let hidden_struct_name =
-        Ident::new(&format!("__yule_log_derive_{}", enum_name.unraw()), enum_name.span());
+        Ident::new(&format!("__yule_log_derive_stream_{}", enum_name.unraw()), enum_name.span());
 
     let builder_struct_name = Ident::new(
-        &format!("__yule_log_derive_{}Builder", enum_name.unraw()),
+        &format!("__yule_log_derive_builder_{}", enum_name.unraw()),
         enum_name.span(),
     );
 
-- 
2.43.0


From bd408da532f81338a63ced14c6eb3bc6aad0c54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 30/34] fix: refer to yule_log and std by absolute paths in
 derived code

A type or module named yule_log or std next to the derive hid the crates.
---
 macros/src/lib.rs | 74 +++++++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index c135579..be9e063 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -201,7 +201,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
 
         quote! {
             {
-                let map: std::collections::HashMap<::yule_log::model::Shared<str>, usize> =
+                let map: ::std::collections::HashMap<::yule_log::model::Shared<str>, usize> =
                     format.fields.iter().enumerate()
                         .map(|(i, f)| (f.name.clone(), i))
                         .collect();
@@ -214,7 +214,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                 };
 
                 if !missing.is_empty() {
-                    return Err(yule_log::errors::ULogError::InvalidFieldName(
+                    return Err(::yule_log::errors::ULogError::InvalidFieldName(
                         format!(
                             "The following fields were not found in subscription `{}`: {}",
                             #subscription,
@@ -271,7 +271,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                 quote! {
                     #name: match ::yule_log::macro_utils::field_at(format, self.#idx_ident) {
                         // A field at the end of the message may be omitted, e.g. if it is padding.
-                        None => return Err(yule_log::errors::ULogError::InvalidFieldName(
+                        None => return Err(::yule_log::errors::ULogError::InvalidFieldName(
                             format!("{} is missing in a message of format `{}`", #ulog_name, format.name)
                         )),
                         Some(field) => <#ty as #from_field_path>::from_field(field)?,
@@ -302,29 +302,29 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
 
         #[automatically_derived]
         impl #accessor_name {
-            pub(crate) fn from_format(format: &yule_log::model::def::Format) -> Result<Self, yule_log::errors::ULogError> {
+            pub(crate) fn from_format(format: &::yule_log::model::def::Format) -> Result<Self, ::yule_log::errors::ULogError> {
                 #accessor_struct
             }
         }
 
 
         #[automatically_derived]
-        impl yule_log::macro_utils::ULogAccessorFactory for #struct_name {
+        impl ::yule_log::macro_utils::ULogAccessorFactory for #struct_name {
             type Accessor = #accessor_name;
 
-            fn from_format(format: &yule_log::model::def::Format)
-                -> Result<Self::Accessor, yule_log::errors::ULogError>
+            fn from_format(format: &::yule_log::model::def::Format)
+                -> Result<Self::Accessor, ::yule_log::errors::ULogError>
             {
                 #accessor_name::from_format(format)
             }
         }
 
         #[automatically_derived]
-        impl yule_log::macro_utils::ULogAccessor for #accessor_name {
+        impl ::yule_log::macro_utils::ULogAccessor for #accessor_name {
             type Output = #struct_name;
 
-            fn get_data(&self, format: &yule_log::model::inst::Format)
-                -> Result<Self::Output, yule_log::errors::ULogError>
+            fn get_data(&self, format: &::yule_log::model::inst::Format)
+                -> Result<Self::Output, ::yule_log::errors::ULogError>
             {
                 Ok(#struct_name {
                     #( #get_data_fields ),*
@@ -483,10 +483,10 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                 (<#ty>::__YULE_LOG_SUBSCRIPTION, <#ty>::__YULE_LOG_MULTI_ID) => {
                     let format = match self.parser.get_format(&sub.message_name) {
                         Ok(f) => f,
-                        Err(e) => return Some(Err(yule_log::errors::ULogError::from(e))),
+                        Err(e) => return Some(Err(::yule_log::errors::ULogError::from(e))),
                     };
 
-                    let acc = match <#ty as yule_log::macro_utils::ULogAccessorFactory>::from_format(&format) {
+                    let acc = match <#ty as ::yule_log::macro_utils::ULogAccessorFactory>::from_format(&format) {
                         Ok(a) => a,
                         Err(e) => return Some(Err(e)),
                     };
@@ -562,13 +562,13 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         #[allow(non_camel_case_types)]
         #[derive(Debug)]
         #[automatically_derived]
-        struct #builder_struct_name<R: std::io::Read> {
+        struct #builder_struct_name<R: ::std::io::Read> {
             reader: R,
             extra_allow_list: Vec<String>,
             forward_subscriptions: bool,
         }
 
-        impl<R: std::io::Read> #builder_struct_name<R> {
+        impl<R: ::std::io::Read> #builder_struct_name<R> {
             pub const HAS_FORWARD_OTHER: bool = #has_forward_other;
 
             pub fn new(reader: R) -> Self {
@@ -580,9 +580,9 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
             }
 
             #[allow(dead_code)]
-            pub fn add_subscription<S: Into<String>>(mut self, name: S) -> Result<Self, yule_log::errors::ULogError> {
+            pub fn add_subscription<S: Into<String>>(mut self, name: S) -> Result<Self, ::yule_log::errors::ULogError> {
                 if !Self::HAS_FORWARD_OTHER {
-                    return Err(yule_log::errors::ULogError::InvalidConfiguration(
+                    return Err(::yule_log::errors::ULogError::InvalidConfiguration(
                         "Cannot add extra subscriptions because there is no #[yule_log(forward_other)] variant configured to receive them.".to_string()
                     ));
                 }
@@ -590,13 +590,13 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                 Ok(self)
             }
 
-            pub fn extend_subscriptions<I, S>(mut self, subs: I) -> Result<Self, yule_log::errors::ULogError>
+            pub fn extend_subscriptions<I, S>(mut self, subs: I) -> Result<Self, ::yule_log::errors::ULogError>
             where
                 I: IntoIterator<Item = S>,
                 S: Into<String>
             {
                 if !Self::HAS_FORWARD_OTHER {
-                    return Err(yule_log::errors::ULogError::InvalidConfiguration(
+                    return Err(::yule_log::errors::ULogError::InvalidConfiguration(
                         "Cannot add extra subscriptions because there is no #[yule_log(forward_other)] variant configured to receive them.".to_string()
                     ));
                 }
@@ -607,11 +607,11 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
             }
 
             #[allow(dead_code)]
-            pub fn forward_subscriptions(mut self, value: bool) -> Result<Self, yule_log::errors::ULogError> {
+            pub fn forward_subscriptions(mut self, value: bool) -> Result<Self, ::yule_log::errors::ULogError> {
                 match value {
                     true => {
                         if !Self::HAS_FORWARD_OTHER {
-                            return Err(yule_log::errors::ULogError::InvalidConfiguration(
+                            return Err(::yule_log::errors::ULogError::InvalidConfiguration(
                                 "Cannot forward subscriptions messages because there is no #[yule_log(forward_other)] variant configured to receive them.".to_string()
                             ));
                         }
@@ -623,7 +623,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                 Ok(self)
             }
 
-            pub fn stream(self) -> Result<#hidden_struct_name<R>, yule_log::errors::ULogError> {
+            pub fn stream(self) -> Result<#hidden_struct_name<R>, ::yule_log::errors::ULogError> {
                 let mut result = #hidden_struct_name::new(self.reader)?;
                 result.extend_allow_list(self.extra_allow_list);
                 result.forward_subscriptions(self.forward_subscriptions);
@@ -634,33 +634,33 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         #[doc = "Internal iterator struct driving the ULog parser and dispatching messages."]
         #[allow(non_camel_case_types)]
         #[automatically_derived]
-        struct #hidden_struct_name<R: std::io::Read> {
-            parser: yule_log::parser::ULogParser<R>,
-            subs: std::collections::HashMap<u16, #accessor_enum_name>,
+        struct #hidden_struct_name<R: ::std::io::Read> {
+            parser: ::yule_log::parser::ULogParser<R>,
+            subs: ::std::collections::HashMap<u16, #accessor_enum_name>,
             forward_subscriptions: bool,
         }
 
         #[automatically_derived]
         // The type parameter must not have the name of a user's type.
-        impl<__YuleLogReader: std::io::Read> #hidden_struct_name<__YuleLogReader> {
-            fn new(reader: __YuleLogReader) -> Result<Self, yule_log::errors::ULogError> {
-                let mut parser = yule_log::builder::ULogParserBuilder::new(reader)
+        impl<__YuleLogReader: ::std::io::Read> #hidden_struct_name<__YuleLogReader> {
+            fn new(reader: __YuleLogReader) -> Result<Self, ::yule_log::errors::ULogError> {
+                let mut parser = ::yule_log::builder::ULogParserBuilder::new(reader)
                     .include_timestamp(true)
                     .include_padding(true)
                     .build()
-                    .map_err(|e| yule_log::errors::ULogError::InternalError(e.to_string()))?;
+                    .map_err(|e| ::yule_log::errors::ULogError::InternalError(e.to_string()))?;
 
                 // Set allow-list from all subscription names in user structs
-                let allowed_subs: std::collections::HashSet<String> =
+                let allowed_subs: ::std::collections::HashSet<String> =
                     [ #( #subscription_idents.to_string() ),* ].into_iter().collect();
 
                 parser.set_subscription_allow_list(allowed_subs);
 
-                Ok(Self { parser, subs: std::collections::HashMap::new(), forward_subscriptions: false })
+                Ok(Self { parser, subs: ::std::collections::HashMap::new(), forward_subscriptions: false })
             }
 
             fn extend_allow_list(&mut self, extra_allow_list: Vec<String>) {
-                let mut allow: std::collections::HashSet<String> =
+                let mut allow: ::std::collections::HashSet<String> =
                     [ #( #subscription_idents.to_string() ),* ].into_iter().collect();
                 allow.extend(extra_allow_list.iter().cloned());
                 self.parser.set_subscription_allow_list(allow);
@@ -672,8 +672,8 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         }
 
         #[automatically_derived]
-        impl<__YuleLogReader: std::io::Read> Iterator for #hidden_struct_name<__YuleLogReader> {
-            type Item = Result<#enum_name, yule_log::errors::ULogError>;
+        impl<__YuleLogReader: ::std::io::Read> Iterator for #hidden_struct_name<__YuleLogReader> {
+            type Item = Result<#enum_name, ::yule_log::errors::ULogError>;
 
             fn next(&mut self) -> Option<Self::Item> {
                 // Don't bring any name into scope that the user's types may also have.
@@ -682,7 +682,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                 while let Some(msg_res) = self.parser.next() {
                     let msg = match msg_res {
                         Ok(m) => m,
-                        Err(e) => return Some(Err(yule_log::errors::ULogError::from(e))),
+                        Err(e) => return Some(Err(::yule_log::errors::ULogError::from(e))),
                     };
 
                     match msg {
@@ -717,15 +717,15 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         #[automatically_derived]
         impl #enum_name {
             #[doc = "Returns an iterator over the selected ULOG messages from the reader."]
-            pub fn stream<R: std::io::Read>(
+            pub fn stream<R: ::std::io::Read>(
                 reader: R,
-            ) -> Result<impl Iterator<Item = Result<Self, yule_log::errors::ULogError>>, yule_log::errors::ULogError>
+            ) -> Result<impl Iterator<Item = Result<Self, ::yule_log::errors::ULogError>>, ::yule_log::errors::ULogError>
             {
                 #hidden_struct_name::new(reader)
             }
 
             #[doc = "Returns a builder that allows the iterator to be customised."]
-            pub fn builder<R: std::io::Read>(reader: R) -> #builder_struct_name<R> {
+            pub fn builder<R: ::std::io::Read>(reader: R) -> #builder_struct_name<R> {
                 #builder_struct_name::new(reader)
             }
         }
-- 
2.43.0


From 958a6a486c854364cccc42be8204c154b0bbb914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 31/34] fix: an allow-list set on the parser applies to
 subscriptions already read

---
 core/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 58025a1..95bee65 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -166,13 +166,18 @@ impl<R: Read> ULogParser<R> {
         subscr_names: impl IntoIterator<Item = String>,
     ) {
         self.subscription_filter = SubscriptionFilter::new(subscr_names);
+
+        // The list applies to the subscriptions which were already read too.
+        for sub in self.subscriptions.values() {
+            self.subscription_filter.update_ids(sub);
+        }
     }
 
     /// Deprecated. Use `ULogParserBuilder::set_subscription_allow_list()` instead.
     /// This will be removed or made private in a future release.
     #[deprecated]
     pub fn set_subscription_allow_list(&mut self, set: HashSet<String>) {
-        self.subscription_filter = SubscriptionFilter::new(set);
+        self.set_allowed_subscription_names(set);
     }
 
     pub fn get_format(&self, message_name: &str) -> Result<Shared<def::Format>, ULogError> {
-- 
2.43.0


From 4832fff4448ae518cac0b4499048f4f215154b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 32/34] fix: misplaced or unknown yule_log attributes on enums
 and variants are compile errors

---
 macros/src/lib.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index be9e063..e404aac 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -341,7 +341,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
 // --------------------------- Enum Derive ---------------------------
 //
 
-#[derive(FromVariant, Default)]
+#[derive(FromVariant)]
 #[darling(attributes(yule_log))]
 // Tracks which enum variant is marked #[yule_log(forward_other)] at macro expansion
 struct LoggedVariantAttr {
@@ -350,6 +350,11 @@ struct LoggedVariantAttr {
     forward_other: bool,
 }
 
+#[derive(FromDeriveInput)]
+#[darling(attributes(yule_log))]
+// There are no attributes for the enum itself. Anything given there is an error.
+struct LoggedEnumAttr {}
+
 /// Derive `ULogMessages` for an enum wrapping `ULogData` structs.
 ///
 /// This enum acts as the dispatcher for all ULOG message types.
@@ -395,12 +400,27 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         .into();
     }
 
+    // Issue a compile error for misplaced attributes, rather than ignoring them.
+    if let Err(e) = LoggedEnumAttr::from_derive_input(&input) {
+        return e.write_errors().into();
+    }
+    for attr in variants.iter().flat_map(|v| &v.fields).flat_map(|f| &f.attrs) {
+        if attr.path().is_ident("yule_log") {
+            return syn::Error::new_spanned(attr, "yule_log attributes belong on the variant.")
+                .to_compile_error()
+                .into();
+        }
+    }
+
     // Find the variant marked with #[yule_log(forward_other)], if present
     let mut forward_other_variant_ident = None;
     let mut variant_info = Vec::new();
 
     for v in variants {
-        let attr = LoggedVariantAttr::from_variant(v).unwrap_or_default();
+        let attr = match LoggedVariantAttr::from_variant(v) {
+            Ok(a) => a,
+            Err(e) => return e.write_errors().into(),
+        };
         if attr.forward_other {
             if forward_other_variant_ident.is_some() {
                 return syn::Error::new_spanned(
-- 
2.43.0


From f5e1767610a87aedda5ccc8ade97df913bb7d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 33/34] fix: enum variants with named fields were silently
 never produced

---
 macros/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index e404aac..9576b0b 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -433,6 +433,15 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
             forward_other_variant_ident = Some(v.ident.clone());
         }
 
+        if let syn::Fields::Named(_) = &v.fields {
+            return syn::Error::new_spanned(
+                v,
+                "Enum variants must be tuple variants containing exactly one struct type.",
+            )
+            .to_compile_error()
+            .into();
+        }
+
         if let syn::Fields::Unnamed(fields) = &v.fields {
             if fields.unnamed.len() != 1 {
                 return syn::Error::new_spanned(
-- 
2.43.0


From 1b6447c6b8b2841927dab59ab0762d754c671b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:12 +0000
Subject: [PATCH 34/34] fix: derives rejected types given in parentheses or
 through macro_rules fragments

---
 macros/src/lib.rs   |  4 ++--
 macros/src/utils.rs | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 9576b0b..455c7ff 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -34,7 +34,7 @@
 
 mod utils;
 
-use crate::utils::{extract_option_type, is_option_type, make_index_type};
+use crate::utils::{bare_type, extract_option_type, is_option_type, make_index_type};
 use darling::FromDeriveInput;
 use darling::FromField;
 use darling::FromVariant;
@@ -451,7 +451,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                 .to_compile_error()
                 .into();
             }
-            variant_info.push((v.ident.clone(), &fields.unnamed[0].ty));
+            variant_info.push((v.ident.clone(), bare_type(&fields.unnamed[0].ty)));
         }
     }
 
diff --git a/macros/src/utils.rs b/macros/src/utils.rs
index 159671c..d459693 100644
--- a/macros/src/utils.rs
+++ b/macros/src/utils.rs
@@ -1,8 +1,20 @@
 use proc_macro2::Span;
 use syn::{Field, GenericArgument, Ident, Path, PathArguments, PathSegment, Token, Type, TypePath};
 
+/// The type itself when it is written in parentheses or comes from a `macro_rules` fragment, which puts it
+/// into an invisible group.
+pub fn bare_type(mut ty: &Type) -> &Type {
+    loop {
+        ty = match ty {
+            Type::Group(group) => &group.elem,
+            Type::Paren(paren) => &paren.elem,
+            _ => return ty,
+        };
+    }
+}
+
 pub fn is_option_type(ty: &Type) -> bool {
-    if let Type::Path(type_path) = ty {
+    if let Type::Path(type_path) = bare_type(ty) {
         if let Some(seg) = type_path.path.segments.last() {
             if seg.ident == "Option" {
                 return matches!(seg.arguments, PathArguments::AngleBracketed(_));
@@ -64,7 +76,7 @@ pub fn make_index_type(field: &Field) -> Type {
 }
 
 pub fn extract_option_type(ty: &Type) -> Option<&Type> {
-    if let Type::Path(TypePath { path, .. }) = ty {
+    if let Type::Path(TypePath { path, .. }) = bare_type(ty) {
         if let Some(PathSegment { ident, arguments }) = path.segments.last() {
             if *ident == "Option" {
                 if let PathArguments::AngleBracketed(ref args) = arguments {
-- 
2.43.0

