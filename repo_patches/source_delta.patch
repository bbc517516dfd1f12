From 672ed77fbd2aaaf7db67152d738cd3c0a15d952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:39 +0000
Subject: [PATCH 01/48] fix: buffered reads of a body honour its declared
 length

poll_fill_buf showed bytes beyond the declared length and consume did not
count them, so a body read through AsyncBufRead (or chained afterwards)
delivered other bytes than the same body read through AsyncRead.
---
 src/body.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/body.rs b/src/body.rs
index ac1acfc..295db11 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -604,10 +604,23 @@ impl AsyncRead for Body {
 impl AsyncBufRead for Body {
     #[allow(rustdoc::missing_doc_code_examples)]
     fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&'_ [u8]>> {
-        self.project().reader.poll_fill_buf(cx)
+        let this = self.project();
+        let left = match *this.length {
+            None => return this.reader.poll_fill_buf(cx),
+            Some(length) => length.saturating_sub(*this.bytes_read),
+        };
+        if left == 0 {
+            return Poll::Ready(Ok(&[]));
+        }
+
+        // Never show more than what is left of the declared length.
+        let buf = ready!(this.reader.poll_fill_buf(cx))?;
+        let max_len = left.min(buf.len() as u64) as usize;
+        Poll::Ready(Ok(&buf[..max_len]))
     }
 
     fn consume(mut self: Pin<&mut Self>, amt: usize) {
+        self.bytes_read += amt as u64;
         Pin::new(&mut self.reader).consume(amt)
     }
 }
-- 
2.43.0


From e7db443a3ba807b6203236ef54cdfdb1494afb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:39 +0000
Subject: [PATCH 02/48] fix: inserting an empty list of header values does not
 store a name without values

---
 src/headers/headers.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/headers/headers.rs b/src/headers/headers.rs
index a7a9d90..42f54ec 100644
--- a/src/headers/headers.rs
+++ b/src/headers/headers.rs
@@ -52,6 +52,10 @@ impl Headers {
     ) -> crate::Result<Option<HeaderValues>> {
         let name = name.into();
         let values: HeaderValues = values.to_header_values()?.collect();
+        if values.inner.is_empty() {
+            // A name is never stored without values.
+            return Ok(self.headers.remove(&name));
+        }
         Ok(self.headers.insert(name, values))
     }
 
-- 
2.43.0


From 1f685a72ac0d5d272717c181c7976782343cfa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:54 +0000
Subject: [PATCH 03/48] fix: the size hint of header value iterators covers
 multi-valued names

Values::size_hint reported the number of names, so a map with a name that
holds several values yielded more items than its upper bound.
---
 src/headers/values.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/headers/values.rs b/src/headers/values.rs
index 810c051..795e9e9 100644
--- a/src/headers/values.rs
+++ b/src/headers/values.rs
@@ -64,9 +64,14 @@ impl<'a> Iterator for Values<'a> {
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
+        let slot = match self.slot {
+            Some(slot) => slot.inner.len() - self.cursor,
+            None => 0,
+        };
         match self.inner.as_ref() {
-            Some(inner) => inner.size_hint(),
-            None => (0, None),
+            // Every remaining name may hold any number of values.
+            Some(inner) if inner.len() > 0 => (slot, None),
+            _ => (slot, Some(slot)),
         }
     }
 }
-- 
2.43.0


From 0e725eb0cc781a770cc890c8ba1609214a2acc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:54 +0000
Subject: [PATCH 04/48] fix: only sniff the bytes that were read from a file

The zero padding of the sniffing buffer was taken for file content, so short
files were given the media type of formats whose magic bytes end in zeros.
---
 src/body.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/body.rs b/src/body.rs
index 295db11..c4e9e67 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -631,8 +631,8 @@ impl AsyncBufRead for Body {
 async fn peek_mime(file: &mut async_std::fs::File) -> io::Result<Option<Mime>> {
     // We need to read the first 300 bytes to correctly infer formats such as tar.
     let mut buf = [0_u8; 300];
-    file.read(&mut buf).await?;
-    let mime = Mime::sniff(&buf).ok();
+    let len = file.read(&mut buf).await?;
+    let mime = Mime::sniff(&buf[..len]).ok();
 
     // Reset the file cursor back to the start.
     file.seek(io::SeekFrom::Start(0)).await?;
-- 
2.43.0


From 226fb3431db22d4e6b27c98fdabf047cff9d30d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:54 +0000
Subject: [PATCH 05/48] fix: decoding a body as a string does not preallocate
 the declared length

A declared length larger than what can be allocated made into_string panic or
abort before reading a single byte.
---
 src/body.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/body.rs b/src/body.rs
index c4e9e67..d893fc1 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -226,7 +226,8 @@ impl Body {
     /// ```
     pub async fn into_string(mut self) -> crate::Result<String> {
         let len = usize::try_from(self.len().unwrap_or(0)).status(StatusCode::PayloadTooLarge)?;
-        let mut result = String::with_capacity(len);
+        // The declared length comes from the peer: don't allocate arbitrary amounts up front.
+        let mut result = String::with_capacity(len.min(64 * 1024));
         self.read_to_string(&mut result)
             .await
             .status(StatusCode::UnprocessableEntity)?;
-- 
2.43.0


From 0f46e651256cfda518b0a5dcbd10a5d8687041fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:49 +0000
Subject: [PATCH 06/48] fix: an unterminated quoted media type parameter
 extends to the end of the input

---
 src/mime/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index f2ec569..c4318e5 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -175,7 +175,8 @@ fn collect_http_quoted_string(mut input: &str) -> (String, &str) {
         let (add_value, new_input) =
             collect_code_point_sequence_slice(input, &['"', '\\'] as &[char]);
         value.push_str(add_value);
-        let mut chars = new_input.chars();
+        input = new_input;
+        let mut chars = input.chars();
         // 3.
         if let Some(quote_or_backslash) = chars.next() {
             // 4.
-- 
2.43.0


From 194325910817dd54dca09297bc227efd68ba7038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:49 +0000
Subject: [PATCH 07/48] fix: the first charset parameter of a media type wins

---
 src/mime/parse.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index c4318e5..270ce4c 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -93,7 +93,16 @@ pub(crate) fn parse(input: &str) -> crate::Result<Mime> {
         };
 
         // 10.
-        if parameter_name == "charset" && parameter_value == "utf-8" {
+        if is_utf8 && parameter_name == "charset" {
+            // the first charset wins
+            continue;
+        }
+        if parameter_name == "charset"
+            && parameter_value == "utf-8"
+            && !params
+                .iter()
+                .any(|(k, _): &(ParamName, ParamValue)| k.as_str() == "charset")
+        {
             is_utf8 = true;
         } else if !parameter_name.is_empty()
             && parameter_name.chars().all(is_http_token_code_point)
-- 
2.43.0


From 4d4022d79239dd1046c17b73392b2493cb5d7580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:49 +0000
Subject: [PATCH 08/48] fix: a charset=utf-8 range only covers media types with
 that charset

---
 src/mime/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mime/mod.rs b/src/mime/mod.rs
index f416de3..c2512a6 100644
--- a/src/mime/mod.rs
+++ b/src/mime/mod.rs
@@ -153,6 +153,9 @@ impl Mime {
         if other.subtype() != "*" && self.subtype() != other.subtype() {
             return false;
         }
+        if other.is_utf8 && !self.param("charset").map(|v| v == "utf-8").unwrap_or(false) {
+            return false;
+        }
         for (name, value) in other.params.iter() {
             if !self
                 .param(name.clone())
-- 
2.43.0


From 1542c861ef7461a58bd4b0a22fd3615664f6ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 09/48] fix: refuse HTTP dates that name a day which does not
 exist or contain a sign

---
 src/utils/date.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/utils/date.rs b/src/utils/date.rs
index 7f9f382..651a6cb 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -58,10 +58,10 @@ impl HttpDate {
         self.second < 60
             && self.minute < 60
             && self.hour < 24
-            && self.day > 0
-            && self.day < 32
             && self.month > 0
             && self.month <= 12
+            && self.day > 0
+            && self.day <= days_in_month(self.year, self.month)
             && self.year >= 1970
             && self.year <= 9999
             && self.week_day >= 1
@@ -334,6 +334,8 @@ impl FromStr for HttpDate {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         ensure!(s.is_ascii(), "String slice is not valid ASCII");
         let x = s.trim().as_bytes();
+        // Integer parsing would accept a sign in place of a digit.
+        ensure!(!x.contains(&b'+'), "Invalid date time");
         let date = parse_imf_fixdate(x)
             .or_else(|_| parse_rfc850_date(x))
             .or_else(|_| parse_asctime(x))?;
@@ -409,6 +411,15 @@ impl PartialOrd for HttpDate {
     }
 }
 
+fn days_in_month(year: u16, month: u8) -> u8 {
+    match month {
+        4 | 6 | 9 | 11 => 30,
+        2 if is_leap_year(year) => 29,
+        2 => 28,
+        _ => 31,
+    }
+}
+
 fn is_leap_year(year: u16) -> bool {
     year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)
 }
-- 
2.43.0


From cf97c58cc4ab443503012b4c20ac7e3e5d82045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 10/48] fix: an RFC 850 date has a space between date and time

---
 src/utils/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/date.rs b/src/utils/date.rs
index 651a6cb..936abff 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -134,7 +134,7 @@ fn parse_rfc850_date(s: &[u8]) -> crate::Result<HttpDate> {
         .or_else(|| week_day(s, 6, b"Saturday, "))
         .or_else(|| week_day(s, 7, b"Sunday, "))
         .ok_or_else(|| format_err!("Invalid day"))?;
-    if s.len() != 22 || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
+    if s.len() != 22 || s[9] != b' ' || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
         bail!("Date time not in rfc950 fmt");
     }
     let mut year = from_utf8(&s[7..9])?.parse::<u16>()?;
-- 
2.43.0


From 5c040b6e4aec703b6e64f7ce8656f275d49ec11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 11/48] fix: large Age values are kept exactly and do not panic

---
 src/cache/age.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/age.rs b/src/cache/age.rs
index 0ee78a0..1da4833 100644
--- a/src/cache/age.rs
+++ b/src/cache/age.rs
@@ -63,7 +63,7 @@ impl Age {
         let header = headers.iter().last().unwrap();
 
         let num: u64 = header.as_str().parse::<u64>().status(400)?;
-        let dur = Duration::from_secs_f64(num as f64);
+        let dur = Duration::from_secs(num);
 
         Ok(Some(Self { dur }))
     }
-- 
2.43.0


From 3a4629af86f1f79f25c1b3ff98147abf70b42af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 12/48] fix: an unrepresentable Retry-After delay does not
 panic

---
 src/other/retry_after.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/other/retry_after.rs b/src/other/retry_after.rs
index 2140459..3cf66ee 100644
--- a/src/other/retry_after.rs
+++ b/src/other/retry_after.rs
@@ -81,7 +81,7 @@ impl RetryAfter {
     /// This may return an error if the `earlier` time was after the current time.
     pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, SystemTimeError> {
         let at = match self.inner {
-            RetryDirective::Duration(dur) => SystemTime::now() + dur,
+            RetryDirective::Duration(dur) => from_now(dur),
             RetryDirective::SystemTime(at) => at,
         };
 
@@ -107,12 +107,22 @@ impl Header for RetryAfter {
 impl From<RetryAfter> for SystemTime {
     fn from(retry_after: RetryAfter) -> Self {
         match retry_after.inner {
-            RetryDirective::Duration(dur) => SystemTime::now() + dur,
+            RetryDirective::Duration(dur) => from_now(dur),
             RetryDirective::SystemTime(at) => at,
         }
     }
 }
 
+/// The largest delay assumed when the given one can not be represented as an instant, see
+/// [RFC 7234, section 1.2.1](https://tools.ietf.org/html/rfc7234#section-1.2.1).
+const MAX_DELTA_SECONDS: u64 = 2147483648;
+
+fn from_now(dur: Duration) -> SystemTime {
+    let now = SystemTime::now();
+    now.checked_add(dur)
+        .unwrap_or_else(|| now + Duration::from_secs(MAX_DELTA_SECONDS))
+}
+
 /// What value are we decoding into?
 ///
 /// This value is intionally never exposes; all end-users want is a `Duration`
-- 
2.43.0


From f030c5620ab4b05b574f01602b5b8efe8ab83c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 13/48] fix: quoted strings are scanned by character, not by
 truncated code point

---
 src/parse_utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index a2dc235..6676e87 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -44,7 +44,7 @@ fn tchar(c: char) -> bool {
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
 fn vchar(c: char) -> bool {
-    matches!(c as u8, b'\t' | 32..=126 | 128..=255)
+    matches!(c, '\t' | ' '..='~' | '\u{80}'..='\u{10FFFF}')
 }
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
@@ -65,20 +65,20 @@ pub(crate) fn parse_quoted_string(input: &str) -> (Option<Cow<'_, str>>, &str) {
             }
         // otherwise, we skip over this character while parsing
         } else {
-            match c as u8 {
+            match c {
                 // we have reached a quoted-pair
-                b'\\' => {
+                '\\' => {
                     backslashes.push(i - 1);
                 }
 
                 // end of the string, DQUOTE
-                b'"' => {
+                '"' => {
                     end_of_string = Some(i + 1);
                     break;
                 }
 
                 // qdtext
-                b'\t' | b' ' | 15 | 35..=91 | 93..=126 | 128..=255 => {}
+                '\t' | ' ' | '!' | '#'..='[' | ']'..='~' | '\u{80}'..='\u{10FFFF}' => {}
 
                 // unexpected character, bail
                 _ => return (None, input),
-- 
2.43.0


From d4a44dc1b17dfdd412eeed313d31b38ea225bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:31 +0000
Subject: [PATCH 14/48] fix: Server-Timing descriptions are quoted strings and
 durations are range checked

---
 src/parse_utils.rs                | 25 +++++++++++++++++++
 src/trace/server_timing/metric.rs |  7 +++++-
 src/trace/server_timing/parse.rs  | 41 ++++++++++++++++++++-----------
 3 files changed, 57 insertions(+), 16 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 6676e87..070d580 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -117,6 +117,31 @@ pub(crate) fn parse_quoted_string(input: &str) -> (Option<Cow<'_, str>>, &str) {
     }
 }
 
+/// Split a string on a delimiter, except where that delimiter is inside of quotes.
+///
+/// If `escapes` is set, a backslash inside of quotes escapes the character after it, as in a
+/// [quoted-string](https://tools.ietf.org/html/rfc7230#section-3.2.6).
+pub(crate) fn split_unquoted(
+    input: &str,
+    delimiter: char,
+    escapes: bool,
+) -> impl Iterator<Item = &str> {
+    let mut quoted = false;
+    let mut escaped = false;
+    input.split(move |c: char| {
+        if escaped {
+            escaped = false;
+            return false;
+        }
+        match c {
+            '\\' if quoted && escapes => escaped = true,
+            '"' => quoted = !quoted,
+            _ => return c == delimiter && !quoted,
+        }
+        false
+    })
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/trace/server_timing/metric.rs b/src/trace/server_timing/metric.rs
index ed55c18..23b4cf4 100644
--- a/src/trace/server_timing/metric.rs
+++ b/src/trace/server_timing/metric.rs
@@ -59,7 +59,12 @@ impl From<Metric> for HeaderValue {
         // Format a `Duration` into the format that the spec expects.
         let f = |d: Duration| d.as_secs_f64() * 1000.0;
 
-        match (entry.dur, entry.desc) {
+        // Escape the characters which would otherwise end the quoted string.
+        let desc = entry
+            .desc
+            .map(|desc| desc.replace('\\', "\\\\").replace('"', "\\\""));
+
+        match (entry.dur, desc) {
             (Some(dur), Some(desc)) => {
                 string.push_str(&format!("; dur={}; desc=\"{}\"", f(dur), desc))
             }
diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 4469336..40f6f7a 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -1,13 +1,18 @@
 use std::time::Duration;
 
 use super::Metric;
+use crate::parse_utils::{parse_quoted_string, split_unquoted};
 use crate::{ensure, format_err, StatusCode};
 
 /// Parse multiple entries from a single header.
 ///
 /// Each entry is comma-delimited.
 pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<()> {
-    for part in s.trim().split(',') {
+    for part in split_unquoted(s.trim(), ',', true) {
+        // Recipients must ignore empty list elements.
+        if part.trim().is_empty() {
+            continue;
+        }
         let entry = parse_entry(part).map_err(|mut e| {
             e.set_status(StatusCode::BadRequest);
             e
@@ -30,7 +35,7 @@ pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<
 //
 /// Source: https://w3c.github.io/server-timing/#the-server-timing-header-field
 fn parse_entry(s: &str) -> crate::Result<Metric> {
-    let mut parts = s.trim().split(';');
+    let mut parts = split_unquoted(s.trim(), ';', true);
 
     // Get the name. This is non-optional.
     let name = parts
@@ -50,39 +55,45 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
 
         part = part.trim_start();
 
-        let mut params = part.split('=');
+        let mut params = part.splitn(2, '=');
         let name = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a name"))?
             .trim_end();
-        let mut value = params
+        let value = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a value"))?
-            .trim_start();
+            .trim();
 
         match name {
             "dur" => {
                 let millis: f64 = value.parse().map_err(|_| {
                         format_err!("Server timing duration params must be a valid double-precision floating-point number.")
                     })?;
-                dur = Some(Duration::from_secs_f64(millis) / 1000);
+                let secs = millis / 1000.0;
+                ensure!(
+                    secs >= 0.0 && secs < u64::MAX as f64,
+                    "Server timing duration params must be a representable, non-negative duration."
+                );
+                dur = Some(Duration::from_secs_f64(secs));
             }
             "desc" => {
                 // Ensure quotes line up, and strip them from the resulting output
-                if value.starts_with('"') {
-                    value = &value[1..value.len()];
-                    ensure!(
-                        value.ends_with('"'),
-                        "Server timing description params must use matching quotes"
-                    );
-                    value = &value[0..value.len() - 1];
+                let value = if value.starts_with('"') {
+                    match parse_quoted_string(value) {
+                        (Some(value), "") => value.into_owned(),
+                        _ => crate::bail!(
+                            "Server timing description params must use matching quotes"
+                        ),
+                    }
                 } else {
                     ensure!(
                         !value.ends_with('"'),
                         "Server timing description params must use matching quotes"
                     );
-                }
-                desc = Some(value.to_string());
+                    value.to_string()
+                };
+                desc = Some(value);
             }
             _ => continue,
         }
-- 
2.43.0


From 0921f6ae0171926189934e851ddb79134e73e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 15/48] fix: a malformed traceparent header is a 400 error

---
 src/trace/trace_context.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trace/trace_context.rs b/src/trace/trace_context.rs
index 3bc062f..2110895 100644
--- a/src/trace/trace_context.rs
+++ b/src/trace/trace_context.rs
@@ -106,11 +106,12 @@ impl TraceContext {
             Some(header) => header,
             None => return Ok(None),
         };
-        let parts: Vec<&str> = traceparent.as_str().split('-').collect();
+        let parts: Vec<&str> = traceparent.last().as_str().split('-').collect();
+        crate::ensure_status!(parts.len() >= 4, 400, "Invalid traceparent header");
 
         Ok(Some(Self {
             id: fastrand::u64(..),
-            version: u8::from_str_radix(parts[0], 16)?,
+            version: u8::from_str_radix(parts[0], 16).status(400)?,
             trace_id: u128::from_str_radix(parts[1], 16).status(400)?,
             parent_id: Some(u64::from_str_radix(parts[2], 16).status(400)?),
             flags: u8::from_str_radix(parts[3], 16).status(400)?,
-- 
2.43.0


From 0f514d64f88faee477f8b28bf2cecda352e2af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 16/48] fix: the s-maxage directive is written under its
 standard name

---
 src/cache/cache_control/cache_directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index 5e8b0b9..f8f12a0 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -148,7 +148,7 @@ impl From<CacheDirective> for HeaderValue {
             Private => h("private".to_string()),
             ProxyRevalidate => h("proxy-revalidate".to_string()),
             Public => h("public".to_string()),
-            SMaxAge(dur) => h(format!("s-max-age={}", dur.as_secs())),
+            SMaxAge(dur) => h(format!("s-maxage={}", dur.as_secs())),
             StaleIfError(dur) => h(format!("stale-if-error={}", dur.as_secs())),
             StaleWhileRevalidate(dur) => h(format!("stale-while-revalidate={}", dur.as_secs())),
         }
-- 
2.43.0


From 487d656f247d48da33075917141b78d86ae70e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:53 +0000
Subject: [PATCH 17/48] fix: an unknown Clear-Site-Data directive is an error,
 not a panic

---
 src/cache/clear_site_data/directive.rs | 4 ++--
 src/cache/clear_site_data/mod.rs       | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cache/clear_site_data/directive.rs b/src/cache/clear_site_data/directive.rs
index b178027..8bd1111 100644
--- a/src/cache/clear_site_data/directive.rs
+++ b/src/cache/clear_site_data/directive.rs
@@ -45,7 +45,7 @@ impl Display for ClearDirective {
 }
 
 impl FromStr for ClearDirective {
-    type Err = std::string::ParseError;
+    type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match s {
@@ -53,7 +53,7 @@ impl FromStr for ClearDirective {
             r#""cookies""# => Ok(Self::Cookies),
             r#""storage""# => Ok(Self::Storage),
             r#""executionContexts""# => Ok(Self::ExecutionContexts),
-            _ => todo!(),
+            _ => crate::bail_status!(400, "Invalid Clear-Site-Data directive"),
         }
     }
 }
diff --git a/src/cache/clear_site_data/mod.rs b/src/cache/clear_site_data/mod.rs
index bb38ab8..c9850f3 100644
--- a/src/cache/clear_site_data/mod.rs
+++ b/src/cache/clear_site_data/mod.rs
@@ -71,6 +71,10 @@ impl ClearSiteData {
         for value in header_values {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
+                // Recipients must ignore empty list elements.
+                if part.is_empty() {
+                    continue;
+                }
                 if part == r#""*""# {
                     wildcard = true;
                     continue;
-- 
2.43.0


From eae75abf62a9d3b8b663b8b5a47348b8c02ed858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 18/48] fix: an unknown content or transfer coding is an error,
 not a panic

---
 src/content/content_encoding.rs   | 3 ++-
 src/transfer/transfer_encoding.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/content/content_encoding.rs b/src/content/content_encoding.rs
index bbab123..f58a936 100644
--- a/src/content/content_encoding.rs
+++ b/src/content/content_encoding.rs
@@ -4,6 +4,7 @@ use crate::headers::{HeaderName, HeaderValue, Headers, CONTENT_ENCODING};
 use crate::{
     content::{Encoding, EncodingProposal},
     headers::Header,
+    Status,
 };
 
 use std::fmt::{self, Debug};
@@ -57,7 +58,7 @@ impl ContentEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = inner.status(400)?;
         Ok(Some(Self { inner }))
     }
 
diff --git a/src/transfer/transfer_encoding.rs b/src/transfer/transfer_encoding.rs
index 7fede4a..df99f7c 100644
--- a/src/transfer/transfer_encoding.rs
+++ b/src/transfer/transfer_encoding.rs
@@ -1,5 +1,6 @@
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, TRANSFER_ENCODING};
 use crate::transfer::{Encoding, EncodingProposal};
+use crate::Status;
 
 use std::fmt::{self, Debug};
 use std::ops::{Deref, DerefMut};
@@ -54,7 +55,7 @@ impl TransferEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = inner.status(400)?;
         Ok(Some(Self { inner }))
     }
 
-- 
2.43.0


From 21b636da06217d321d7dd7c03416992d638cd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:08 +0000
Subject: [PATCH 19/48] fix: entity tags in a list may contain commas, and
 empty list elements are ignored

---
 src/conditional/if_match.rs      | 8 +++++++-
 src/conditional/if_none_match.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/conditional/if_match.rs b/src/conditional/if_match.rs
index 5f84c2b..5e055e0 100644
--- a/src/conditional/if_match.rs
+++ b/src/conditional/if_match.rs
@@ -1,6 +1,7 @@
 //! Apply the HTTP method if the ETag matches.
 
 use crate::headers::{HeaderName, HeaderValue, Headers, IF_MATCH};
+use crate::parse_utils::split_unquoted;
 use crate::{conditional::ETag, headers::Header};
 
 use std::fmt::{self, Debug, Write};
@@ -60,8 +61,13 @@ impl IfMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            // Entity tags have no escapes, but may contain commas.
+            for part in split_unquoted(value.as_str().trim(), ',', false) {
                 let part = part.trim();
+                // Recipients must ignore empty list elements.
+                if part.is_empty() {
+                    continue;
+                }
                 if part == "*" {
                     wildcard = true;
                     continue;
diff --git a/src/conditional/if_none_match.rs b/src/conditional/if_none_match.rs
index b4b37af..199c0df 100644
--- a/src/conditional/if_none_match.rs
+++ b/src/conditional/if_none_match.rs
@@ -4,6 +4,7 @@
 //! one already exists.
 
 use crate::headers::{HeaderName, HeaderValue, Headers, IF_NONE_MATCH};
+use crate::parse_utils::split_unquoted;
 use crate::{conditional::ETag, headers::Header};
 
 use std::fmt::{self, Debug, Write};
@@ -66,8 +67,13 @@ impl IfNoneMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            // Entity tags have no escapes, but may contain commas.
+            for part in split_unquoted(value.as_str().trim(), ',', false) {
                 let part = part.trim();
+                // Recipients must ignore empty list elements.
+                if part.is_empty() {
+                    continue;
+                }
                 if part == "*" {
                     wildcard = true;
                     continue;
-- 
2.43.0


From 7e9a4f7792936f92d2631525533d16b70cac4947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 20/48] fix: an Allow header may be empty, and an invalid one
 is a 400 error

---
 src/server/allow.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/server/allow.rs b/src/server/allow.rs
index 9377a3f..2f788e2 100644
--- a/src/server/allow.rs
+++ b/src/server/allow.rs
@@ -1,7 +1,7 @@
 //! List the set of methods supported by a resource.
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, ALLOW};
-use crate::Method;
+use crate::{Method, Status};
 
 use std::collections::{hash_set, HashSet};
 use std::fmt::{self, Debug, Write};
@@ -58,7 +58,12 @@ impl Allow {
 
         for value in headers {
             for part in value.as_str().trim().split(',') {
-                let method = Method::from_str(part.trim())?;
+                let part = part.trim();
+                // Recipients must ignore empty list elements.
+                if part.is_empty() {
+                    continue;
+                }
+                let method = Method::from_str(part).status(400)?;
                 entries.insert(method);
             }
         }
-- 
2.43.0


From 1dbe00d8da303a8d354fad62e66377d1a3d0c94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 21/48] fix: empty elements of a Vary header are ignored

---
 src/conditional/vary.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conditional/vary.rs b/src/conditional/vary.rs
index 9023811..75fa8a5 100644
--- a/src/conditional/vary.rs
+++ b/src/conditional/vary.rs
@@ -62,6 +62,10 @@ impl Vary {
         for value in headers {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
+                // Recipients must ignore empty list elements.
+                if part.is_empty() {
+                    continue;
+                }
                 if part == "*" {
                     wildcard = true;
                     continue;
-- 
2.43.0


From c6533663d03448e317bc101fb376a27d374d54ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 22/48] fix: Timing-Allow-Origin list elements may be followed
 by whitespace

---
 src/security/timing_allow_origin.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/security/timing_allow_origin.rs b/src/security/timing_allow_origin.rs
index 443427f..4450344 100644
--- a/src/security/timing_allow_origin.rs
+++ b/src/security/timing_allow_origin.rs
@@ -87,7 +87,9 @@ impl TimingAllowOrigin {
         let mut origins = vec![];
         for header in headers {
             for origin in header.as_str().split(',') {
-                match origin.trim_start() {
+                match origin.trim() {
+                    // Recipients must ignore empty list elements.
+                    "" => continue,
                     "*" => wildcard = true,
                     r#""null""# => continue,
                     origin => {
-- 
2.43.0


From f2d10d6569c405b249822e2d8634d85cc1254e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 23/48] fix: quoted media type parameters in Accept may contain
 commas

---
 src/content/accept.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index 87dad90..5805101 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -2,6 +2,7 @@
 
 use crate::headers::{HeaderName, HeaderValue, Headers, ACCEPT};
 use crate::mime::Mime;
+use crate::parse_utils::split_unquoted;
 use crate::utils::sort_by_weight;
 use crate::{
     content::{ContentType, MediaTypeProposal},
@@ -73,7 +74,7 @@ impl Accept {
         let mut wildcard = false;
 
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in split_unquoted(value.as_str().trim(), ',', true) {
                 let part = part.trim();
 
                 // Handle empty strings, and wildcard directives.
-- 
2.43.0


From 2af4ce57ebe12a70408b5692eec9629c7a7d7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 24/48] fix: a malformed preference in Accept, Accept-Encoding
 or TE is a 400 error

---
 src/content/encoding_proposal.rs   |  3 ++-
 src/content/media_type_proposal.rs | 10 ++++++----
 src/transfer/encoding_proposal.rs  |  3 ++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/content/encoding_proposal.rs b/src/content/encoding_proposal.rs
index 7d32944..65c24dd 100644
--- a/src/content/encoding_proposal.rs
+++ b/src/content/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::content::Encoding;
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -52,7 +53,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
diff --git a/src/content/media_type_proposal.rs b/src/content/media_type_proposal.rs
index 622558d..2be48bf 100644
--- a/src/content/media_type_proposal.rs
+++ b/src/content/media_type_proposal.rs
@@ -1,6 +1,7 @@
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::mime::Mime;
+use crate::Status;
 
 use std::ops::{Deref, DerefMut};
 use std::{
@@ -58,12 +59,13 @@ impl MediaTypeProposal {
     /// we have to parse the full string to the media type first, and then see if
     /// a `q` value has been set.
     pub(crate) fn from_str(s: &str) -> crate::Result<Self> {
-        let mut media_type = Mime::from_str(s)?;
+        let mut media_type = Mime::from_str(s).status(400)?;
         let weight = media_type
             .remove_param("q")
-            .map(|param| param.as_str().parse())
-            .transpose()?;
-        Self::new(media_type, weight)
+            .map(|param| param.as_str().parse::<f32>())
+            .transpose()
+            .status(400)?;
+        Self::new(media_type, weight).status(400)
     }
 }
 
diff --git a/src/transfer/encoding_proposal.rs b/src/transfer/encoding_proposal.rs
index 72f083d..7e6e032 100644
--- a/src/transfer/encoding_proposal.rs
+++ b/src/transfer/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::transfer::Encoding;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -54,7 +55,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
-- 
2.43.0


From 18ffbf55193bd8c2c9d11583f2832f54b79fd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 25/48] fix: a weight may be surrounded by whitespace and its
 name is case-insensitive

---
 src/utils/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 9c9ea92..35176c1 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -11,8 +11,8 @@ use std::str::FromStr;
 
 /// Parse a weight of the form `q=0.123`.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
-    let mut parts = s.split('=');
-    if !matches!(parts.next(), Some("q")) {
+    let mut parts = s.trim().split('=');
+    if !matches!(parts.next(), Some(q) if q.eq_ignore_ascii_case("q")) {
         let mut err = Error::new_adhoc("invalid weight");
         err.set_status(StatusCode::BadRequest);
         return Err(err);
-- 
2.43.0


From 2385f8866877e56d599bf6048eb406215947946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 26/48] fix: the realm of a WWW-Authenticate header is a quoted
 string

---
 src/auth/www_authenticate.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/auth/www_authenticate.rs b/src/auth/www_authenticate.rs
index bf9d7a0..b39d3b7 100644
--- a/src/auth/www_authenticate.rs
+++ b/src/auth/www_authenticate.rs
@@ -1,5 +1,6 @@
 use crate::bail_status as bail;
 use crate::headers::{HeaderName, HeaderValue, Headers, WWW_AUTHENTICATE};
+use crate::parse_utils::parse_quoted_string;
 use crate::{auth::AuthenticationScheme, headers::Header};
 
 /// Define the authentication method that should be used to gain access to a
@@ -69,26 +70,15 @@ impl WwwAuthenticate {
         };
 
         let realm = realm.trim_start();
-        let realm = match realm.strip_prefix(r#"realm=""#) {
-            Some(realm) => realm,
-            None => bail!(400, "realm not found"),
+        let realm = match realm.strip_prefix("realm=") {
+            Some(realm) if realm.starts_with('"') => realm,
+            _ => bail!(400, "realm not found"),
         };
 
-        let mut chars = realm.chars();
-        let mut closing_quote = false;
-        let realm = (&mut chars)
-            .take_while(|c| {
-                if c == &'"' {
-                    closing_quote = true;
-                    false
-                } else {
-                    true
-                }
-            })
-            .collect();
-        if !closing_quote {
-            bail!(400, r"Expected a closing quote");
-        }
+        let realm = match parse_quoted_string(realm) {
+            (Some(realm), _) => realm.into_owned(),
+            (None, _) => bail!(400, r"Expected a closing quote"),
+        };
 
         Ok(Some(Self { scheme, realm }))
     }
@@ -120,7 +110,9 @@ impl Header for WwwAuthenticate {
     }
 
     fn header_value(&self) -> HeaderValue {
-        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, self.realm);
+        // Escape the characters which would otherwise end the quoted string.
+        let realm = self.realm.replace('\\', "\\\\").replace('"', "\\\"");
+        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, realm);
 
         // SAFETY: the internal string is validated to be ASCII.
         unsafe { HeaderValue::from_bytes_unchecked(output.into()) }
-- 
2.43.0


From 949d7d155e4efb4720b4ffa58d44853927f49832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 27/48] fix: the directives of Strict-Transport-Security are
 case-insensitive

---
 src/security/strict_transport_security.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/security/strict_transport_security.rs b/src/security/strict_transport_security.rs
index f6c4fe4..6574042 100644
--- a/src/security/strict_transport_security.rs
+++ b/src/security/strict_transport_security.rs
@@ -111,9 +111,9 @@ impl StrictTransportSecurity {
         // the spec we should just ignore it.
         for s in value.as_str().split(';') {
             let s = s.trim();
-            if s == "includesubdomains" {
+            if s.eq_ignore_ascii_case("includesubdomains") {
                 include_subdomains = true;
-            } else if s == "preload" {
+            } else if s.eq_ignore_ascii_case("preload") {
                 preload = true;
             } else {
                 let (key, value) = match s.split_once('=') {
@@ -121,7 +121,13 @@ impl StrictTransportSecurity {
                     None => continue, // We don't recognize the directive, continue.
                 };
 
-                if key == "max-age" {
+                if key.trim_end().eq_ignore_ascii_case("max-age") {
+                    // The value may be a quoted string.
+                    let value = value.trim_start();
+                    let value = value
+                        .strip_prefix('"')
+                        .and_then(|value| value.strip_suffix('"'))
+                        .unwrap_or(value);
                     let secs = value.parse::<u64>().status(400)?;
                     max_age = Some(Duration::from_secs(secs));
                 }
-- 
2.43.0


From 9c2b2536e7c2545131e7307eba87ede3a0934acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 28/48] fix: parsing a short or non-ASCII Forwarded header does
 not panic

---
 src/proxies/forwarded.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 30e491b..2be946b 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -420,20 +420,17 @@ fn format_value(input: &str) -> Cow<'_, str> {
 }
 
 fn match_ignore_case<'a>(start: &'static str, input: &'a str) -> (bool, &'a str) {
-    let len = start.len();
-    if input[..len].eq_ignore_ascii_case(start) {
-        (true, &input[len..])
+    if starts_with_ignore_case(start, input) {
+        (true, &input[start.len()..])
     } else {
         (false, input)
     }
 }
 
 fn starts_with_ignore_case(start: &'static str, input: &str) -> bool {
-    if start.len() <= input.len() {
-        let len = start.len();
-        input[..len].eq_ignore_ascii_case(start)
-    } else {
-        false
+    match input.get(..start.len()) {
+        Some(input) => input.eq_ignore_ascii_case(start),
+        None => false,
     }
 }
 
-- 
2.43.0


From 435822ae388404f0311764aa42525c5e22e15d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:22 +0000
Subject: [PATCH 29/48] fix: the parameter names of a Forwarded header are
 case-insensitive

---
 src/proxies/forwarded.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 2be946b..b98dcce 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -229,7 +229,7 @@ impl<'a> Forwarded<'a> {
         }
         .ok_or_else(|| ParseError::new("parse error in forwarded-pair"))?;
 
-        match key {
+        match key.to_ascii_lowercase().as_str() {
             "by" => {
                 if self.by.is_some() {
                     return Err(ParseError::new("parse error, duplicate `by` key"));
-- 
2.43.0


From afeeea37363bae8c1f128d44a0fb53b859c3d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 30/48] fix: a Forwarded header quotes all values that are not
 tokens, and can do without for

---
 src/proxies/forwarded.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index b98dcce..996cf3c 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -365,26 +365,28 @@ impl<'a> Header for Forwarded<'a> {
     fn header_value(&self) -> HeaderValue {
         let mut output = String::new();
         if let Some(by) = self.by() {
-            write!(&mut output, "by={};", by).unwrap();
+            write!(&mut output, "by={};", format_value(by)).unwrap();
         }
 
-        output.push_str(
-            &self
-                .forwarded_for
-                .iter()
-                .map(|f| format!("for={}", format_value(f)))
-                .collect::<Vec<_>>()
-                .join(", "),
-        );
-
-        output.push(';');
+        if !self.forwarded_for.is_empty() {
+            output.push_str(
+                &self
+                    .forwarded_for
+                    .iter()
+                    .map(|f| format!("for={}", format_value(f)))
+                    .collect::<Vec<_>>()
+                    .join(", "),
+            );
+
+            output.push(';');
+        }
 
         if let Some(host) = self.host() {
-            write!(&mut output, "host={};", host).unwrap();
+            write!(&mut output, "host={};", format_value(host)).unwrap();
         }
 
         if let Some(proto) = self.proto() {
-            write!(&mut output, "proto={};", proto).unwrap();
+            write!(&mut output, "proto={};", format_value(proto)).unwrap();
         }
 
         // remove a trailing semicolon
@@ -404,7 +406,7 @@ fn parse_value(input: &str) -> (Option<Cow<'_, str>>, &str) {
 
 fn format_value(input: &str) -> Cow<'_, str> {
     match parse_token(input) {
-        (_, "") => input.into(),
+        (Some(_), "") => input.into(),
         _ => {
             let mut string = String::from("\"");
             for ch in input.chars() {
-- 
2.43.0


From e2e5e3796a0edabed03bed04aec16bcea28f5d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 31/48] fix: all lines of Forwarded and X-Forwarded-For headers
 are read

---
 src/proxies/forwarded.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 996cf3c..0d57bad 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -111,11 +111,21 @@ impl<'a> Forwarded<'a> {
     pub fn from_forwarded_header(
         headers: &'a impl AsRef<Headers>,
     ) -> Result<Option<Self>, ParseError> {
-        if let Some(headers) = headers.as_ref().get(FORWARDED) {
-            Ok(Some(Self::parse(headers.as_ref().as_str())?))
-        } else {
-            Ok(None)
+        let headers = match headers.as_ref().get(FORWARDED) {
+            Some(headers) => headers,
+            None => return Ok(None),
+        };
+
+        // A proxy may append its element as a header line of its own.
+        let mut forwarded = Self::new();
+        for value in headers {
+            let next = Self::parse(value.as_str())?;
+            forwarded.forwarded_for.extend(next.forwarded_for);
+            forwarded.by = forwarded.by.or(next.by);
+            forwarded.host = forwarded.host.or(next.host);
+            forwarded.proto = forwarded.proto.or(next.proto);
         }
+        Ok(Some(forwarded))
     }
 
     /// Parse a borrowed Forwarded from the historical
@@ -149,8 +159,8 @@ impl<'a> Forwarded<'a> {
         let forwarded_for: Vec<Cow<'a, str>> = headers
             .get(X_FORWARDED_FOR)
             .map(|hv| {
-                hv.as_str()
-                    .split(',')
+                hv.iter()
+                    .flat_map(|hv| hv.as_str().split(','))
                     .map(|v| {
                         let v = v.trim();
                         match v.parse::<IpAddr>().ok() {
-- 
2.43.0


From 3dea1670d01c011e99462a9d3ae471e0d9437eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:49 +0000
Subject: [PATCH 32/48] fix: a media type pushed to Accept without a weight
 ranks like one with weight 1

---
 src/content/media_type_proposal.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/content/media_type_proposal.rs b/src/content/media_type_proposal.rs
index 2be48bf..33f2cf2 100644
--- a/src/content/media_type_proposal.rs
+++ b/src/content/media_type_proposal.rs
@@ -4,10 +4,7 @@ use crate::mime::Mime;
 use crate::Status;
 
 use std::ops::{Deref, DerefMut};
-use std::{
-    cmp::{Ordering, PartialEq},
-    str::FromStr,
-};
+use std::{cmp::PartialEq, str::FromStr};
 
 /// A proposed Media Type for the `Accept` header.
 #[derive(Debug, Clone, PartialEq)]
@@ -118,12 +115,9 @@ impl DerefMut for MediaTypeProposal {
 // that needs to be handled separately.
 impl PartialOrd for MediaTypeProposal {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        match (self.weight, other.weight) {
-            (Some(left), Some(right)) => left.partial_cmp(&right),
-            (Some(_), None) => Some(Ordering::Greater),
-            (None, Some(_)) => Some(Ordering::Less),
-            (None, None) => None,
-        }
+        // A media type without a weight has a weight of 1.
+        let (left, right) = (self.weight.unwrap_or(1.0), other.weight.unwrap_or(1.0));
+        left.partial_cmp(&right)
     }
 }
 
-- 
2.43.0


From 2670286faa9b3f58e5efaab33282c06af43f1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:51 +0000
Subject: [PATCH 33/48] fix: negotiation does not select what a client refuses
 with a weight of 0

---
 src/content/accept.rs          | 22 ++++++++++++++++++++--
 src/content/accept_encoding.rs |  8 ++++++--
 src/transfer/te.rs             |  8 ++++++--
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index 5805101..baa782f 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -130,14 +130,32 @@ impl Accept {
 
         // Try and find the first encoding that matches.
         for accept in &self.entries {
-            if let Some(accept) = available.iter().find(|m| m.subset_eq(accept.media_type())) {
+            // A weight of 0 means "not acceptable".
+            if accept.weight() == Some(0.0) {
+                continue;
+            }
+            // A range does not apply where a more specific range states something else.
+            let range = accept.media_type();
+            let overridden = |m: &Mime| {
+                self.entries
+                    .iter()
+                    .map(|e| e.media_type())
+                    .any(|e| m.subset_eq(e) && e.subset_eq(range) && !range.subset_eq(e))
+            };
+            if let Some(accept) = available
+                .iter()
+                .find(|m| m.subset_eq(range) && !overridden(m))
+            {
                 return Ok(accept.clone().into());
             }
         }
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(accept) = available.iter().next() {
+            if let Some(accept) = available
+                .iter()
+                .find(|m| !self.entries.iter().any(|e| m.subset_eq(e.media_type())))
+            {
                 return Ok(accept.clone().into());
             }
         }
diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index 5c469a4..6038e5e 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -121,14 +121,18 @@ impl AcceptEncoding {
 
         // Try and find the first encoding that matches.
         for encoding in &self.entries {
-            if available.contains(encoding) {
+            // A weight of 0 means "not acceptable".
+            if encoding.weight() != Some(0.0) && available.contains(encoding) {
                 return Ok(encoding.into());
             }
         }
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            if let Some(encoding) = available
+                .iter()
+                .find(|e| !self.entries.iter().any(|p| p == *e))
+            {
                 return Ok(encoding.into());
             }
         }
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index acd1af8..efb1b96 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -119,14 +119,18 @@ impl TE {
 
         // Try and find the first encoding that matches.
         for encoding in &self.entries {
-            if available.contains(encoding) {
+            // A weight of 0 means "not acceptable".
+            if encoding.weight() != Some(0.0) && available.contains(encoding) {
                 return Ok(encoding.into());
             }
         }
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            if let Some(encoding) = available
+                .iter()
+                .find(|e| !self.entries.iter().any(|p| p == *e))
+            {
                 return Ok(encoding.into());
             }
         }
-- 
2.43.0


From 6c89b8fadd18d722d1904237a4a5a0c730114a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 34/48] fix: a wildcard in Accept-Encoding and TE may have a
 weight

---
 src/content/accept_encoding.rs |  6 +++---
 src/transfer/te.rs             |  6 +++---
 src/utils/mod.rs               | 16 ++++++++++++++++
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index 6038e5e..20b0abe 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -1,7 +1,7 @@
 //! Client header advertising available compression algorithms.
 
 use crate::headers::{HeaderName, HeaderValue, Headers, ACCEPT_ENCODING};
-use crate::utils::sort_by_weight;
+use crate::utils::{parse_wildcard, sort_by_weight};
 use crate::{
     content::{ContentEncoding, Encoding, EncodingProposal},
     headers::Header,
@@ -70,8 +70,8 @@ impl AcceptEncoding {
                 // Handle empty strings, and wildcard directives.
                 if part.is_empty() {
                     continue;
-                } else if part == "*" {
-                    wildcard = true;
+                } else if let Some(acceptable) = parse_wildcard(part)? {
+                    wildcard |= acceptable;
                     continue;
                 }
 
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index efb1b96..5f36a21 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -1,6 +1,6 @@
 use crate::headers::{self, Header, HeaderName, HeaderValue, Headers};
 use crate::transfer::{Encoding, EncodingProposal, TransferEncoding};
-use crate::utils::sort_by_weight;
+use crate::utils::{parse_wildcard, sort_by_weight};
 use crate::{Error, StatusCode};
 
 use std::fmt::{self, Debug, Write};
@@ -68,8 +68,8 @@ impl TE {
                 // Handle empty strings, and wildcard directives.
                 if part.is_empty() {
                     continue;
-                } else if part == "*" {
-                    wildcard = true;
+                } else if let Some(acceptable) = parse_wildcard(part)? {
+                    wildcard |= acceptable;
                     continue;
                 }
 
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 35176c1..259a0fc 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -30,6 +30,22 @@ pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
     }
 }
 
+/// Parse a wildcard directive with an optional weight, and determine whether it makes other
+/// values acceptable. Returns `None` if the directive is not a wildcard.
+pub(crate) fn parse_wildcard(s: &str) -> crate::Result<Option<bool>> {
+    let mut parts = s.split(';');
+    if parts.next().map(|s| s.trim()) != Some("*") {
+        return Ok(None);
+    }
+    let weight = parts.next().map(parse_weight).transpose()?.unwrap_or(1.0);
+    crate::ensure_status!(
+        weight.is_sign_positive() && weight <= 1.0,
+        400,
+        "A wildcard should have a weight between 0.0 and 1.0"
+    );
+    Ok(Some(weight > 0.0))
+}
+
 /// Order proposals by weight. Try ordering by q value first. If equal or undefined,
 /// order by index, favoring the latest provided value.
 pub(crate) fn sort_by_weight<T: PartialOrd + Clone>(props: &mut Vec<T>) {
-- 
2.43.0


From 6aa70e88b448f362bc69153a67486a5588b982b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:43 +0000
Subject: [PATCH 35/48] fix: sorting or negotiating twice does not reverse
 preferences of equal weight

---
 src/content/accept.rs          | 11 +++++++++--
 src/content/accept_encoding.rs | 11 +++++++++--
 src/transfer/te.rs             | 11 +++++++++--
 src/utils/mod.rs               | 16 +++++++++++++---
 4 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index baa782f..13d6b1a 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -52,6 +52,8 @@ use std::slice;
 pub struct Accept {
     wildcard: bool,
     entries: Vec<MediaTypeProposal>,
+    /// The positions at which the sorted entries were declared.
+    declared: Vec<usize>,
 }
 
 impl Accept {
@@ -59,6 +61,7 @@ impl Accept {
     pub fn new() -> Self {
         Self {
             entries: vec![],
+            declared: vec![],
             wildcard: false,
         }
     }
@@ -92,7 +95,11 @@ impl Accept {
             }
         }
 
-        Ok(Some(Self { wildcard, entries }))
+        Ok(Some(Self {
+            wildcard,
+            entries,
+            declared: vec![],
+        }))
     }
 
     /// Push a directive into the list of entries.
@@ -116,7 +123,7 @@ impl Accept {
     /// directives have the same weight, the directive that was declared later
     /// will be returned first.
     pub fn sort(&mut self) {
-        sort_by_weight(&mut self.entries);
+        sort_by_weight(&mut self.entries, &mut self.declared);
     }
 
     /// Determine the most suitable `Content-Type` encoding.
diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index 20b0abe..9779cfb 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -42,6 +42,8 @@ use std::slice;
 pub struct AcceptEncoding {
     wildcard: bool,
     entries: Vec<EncodingProposal>,
+    /// The positions at which the sorted entries were declared.
+    declared: Vec<usize>,
 }
 
 impl AcceptEncoding {
@@ -49,6 +51,7 @@ impl AcceptEncoding {
     pub fn new() -> Self {
         Self {
             entries: vec![],
+            declared: vec![],
             wildcard: false,
         }
     }
@@ -83,7 +86,11 @@ impl AcceptEncoding {
             }
         }
 
-        Ok(Some(Self { wildcard, entries }))
+        Ok(Some(Self {
+            wildcard,
+            entries,
+            declared: vec![],
+        }))
     }
 
     /// Push a directive into the list of entries.
@@ -107,7 +114,7 @@ impl AcceptEncoding {
     /// directives have the same weight, the directive that was declared later
     /// will be returned first.
     pub fn sort(&mut self) {
-        sort_by_weight(&mut self.entries);
+        sort_by_weight(&mut self.entries, &mut self.declared);
     }
 
     /// Determine the most suitable `Content-Encoding` encoding.
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index 5f36a21..c947eb3 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -40,6 +40,8 @@ use std::slice;
 pub struct TE {
     wildcard: bool,
     entries: Vec<EncodingProposal>,
+    /// The positions at which the sorted entries were declared.
+    declared: Vec<usize>,
 }
 
 impl TE {
@@ -47,6 +49,7 @@ impl TE {
     pub fn new() -> Self {
         Self {
             entries: vec![],
+            declared: vec![],
             wildcard: false,
         }
     }
@@ -81,7 +84,11 @@ impl TE {
             }
         }
 
-        Ok(Some(Self { wildcard, entries }))
+        Ok(Some(Self {
+            wildcard,
+            entries,
+            declared: vec![],
+        }))
     }
 
     /// Push a directive into the list of entries.
@@ -105,7 +112,7 @@ impl TE {
     /// directives have the same weight, the directive that was declared later
     /// will be returned first.
     pub fn sort(&mut self) {
-        sort_by_weight(&mut self.entries);
+        sort_by_weight(&mut self.entries, &mut self.declared);
     }
 
     /// Determine the most suitable `Transfer-Encoding` encoding.
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 259a0fc..e15efa1 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -48,11 +48,21 @@ pub(crate) fn parse_wildcard(s: &str) -> crate::Result<Option<bool>> {
 
 /// Order proposals by weight. Try ordering by q value first. If equal or undefined,
 /// order by index, favoring the latest provided value.
-pub(crate) fn sort_by_weight<T: PartialOrd + Clone>(props: &mut Vec<T>) {
-    let mut arr: Vec<(usize, T)> = props.iter().cloned().enumerate().collect();
+///
+/// `declared` holds the index at which each of the already sorted values was provided, so that
+/// sorting twice does not reverse the order of equal weights.
+pub(crate) fn sort_by_weight<T: PartialOrd + Clone>(props: &mut Vec<T>, declared: &mut Vec<usize>) {
+    declared.extend(declared.len()..props.len());
+    let mut arr: Vec<(usize, T)> = declared
+        .iter()
+        .copied()
+        .zip(props.iter().cloned())
+        .collect();
     arr.sort_unstable_by(|a, b| match b.1.partial_cmp(&a.1) {
         None | Some(Ordering::Equal) => b.0.cmp(&a.0),
         Some(ord) => ord,
     });
-    *props = arr.into_iter().map(|(_, t)| t).collect::<Vec<T>>();
+    let (indices, sorted) = arr.into_iter().unzip();
+    *declared = indices;
+    *props = sorted;
 }
-- 
2.43.0


From 4ac722a1a8a2072727e8e92b2b6d774c1dacf095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:14 +0000
Subject: [PATCH 36/48] fix: a cloned message has its own trailer and upgrade
 channels

---
 src/request.rs  |  5 +++--
 src/response.rs | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 6b3bb35..964563b 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -888,13 +888,14 @@ impl Clone for Request {
     /// Clone the request, resolving the body to `Body::empty()` and removing
     /// extensions.
     fn clone(&self) -> Self {
+        let (trailers_sender, trailers_receiver) = async_channel::bounded(1);
         Request {
             method: self.method,
             url: self.url.clone(),
             headers: self.headers.clone(),
             version: self.version,
-            trailers_sender: None,
-            trailers_receiver: None,
+            trailers_sender: Some(trailers_sender),
+            trailers_receiver: Some(trailers_receiver),
             body: Body::empty(),
             ext: Extensions::new(),
             peer_addr: self.peer_addr.clone(),
diff --git a/src/response.rs b/src/response.rs
index 4b4a4aa..eac2ca4 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -586,15 +586,17 @@ impl Clone for Response {
     /// Clone the response, resolving the body to `Body::empty()` and removing
     /// extensions.
     fn clone(&self) -> Self {
+        let (trailers_sender, trailers_receiver) = async_channel::bounded(1);
+        let (upgrade_sender, upgrade_receiver) = async_channel::bounded(1);
         Self {
             status: self.status,
             headers: self.headers.clone(),
             version: self.version,
-            trailers_sender: self.trailers_sender.clone(),
-            trailers_receiver: self.trailers_receiver.clone(),
+            trailers_sender: Some(trailers_sender),
+            trailers_receiver: Some(trailers_receiver),
             has_trailers: false,
-            upgrade_sender: self.upgrade_sender.clone(),
-            upgrade_receiver: self.upgrade_receiver.clone(),
+            upgrade_sender: Some(upgrade_sender),
+            upgrade_receiver: Some(upgrade_receiver),
             has_upgrade: false,
             body: Body::empty(),
             ext: Extensions::new(),
-- 
2.43.0


From 5f3727e650b8549a1d5f7b7acfa46320f15290d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 37/48] fix: numbers in headers may not start with a plus sign

---
 src/cache/age.rs                           |  4 ++--
 src/cache/cache_control/cache_directive.rs |  5 +++--
 src/content/content_length.rs              |  4 ++--
 src/other/retry_after.rs                   |  4 ++--
 src/security/strict_transport_security.rs  |  4 ++--
 src/utils/mod.rs                           | 10 ++++++++++
 6 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/cache/age.rs b/src/cache/age.rs
index 1da4833..c134e43 100644
--- a/src/cache/age.rs
+++ b/src/cache/age.rs
@@ -1,5 +1,5 @@
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, AGE};
-use crate::Status;
+use crate::utils::parse_u64;
 
 use std::fmt::Debug;
 
@@ -62,7 +62,7 @@ impl Age {
         // entry. We want the last entry.
         let header = headers.iter().last().unwrap();
 
-        let num: u64 = header.as_str().parse::<u64>().status(400)?;
+        let num: u64 = parse_u64(header.as_str())?;
         let dur = Duration::from_secs(num);
 
         Ok(Some(Self { dur }))
diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index f8f12a0..9dd600b 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -1,4 +1,5 @@
 use crate::headers::HeaderValue;
+use crate::utils::parse_u64;
 use crate::Status;
 
 use std::time::Duration;
@@ -94,7 +95,7 @@ impl CacheDirective {
 
         let mut get_dur = || -> crate::Result<Duration> {
             let dur = parts.next().status(400)?;
-            let dur: u64 = dur.parse::<u64>().status(400)?;
+            let dur: u64 = parse_u64(dur)?;
             Ok(Duration::new(dur, 0))
         };
 
@@ -112,7 +113,7 @@ impl CacheDirective {
             "max-age" => Some(MaxAge(get_dur()?)),
             "max-stale" => match parts.next() {
                 Some(secs) => {
-                    let dur: u64 = secs.parse::<u64>().status(400)?;
+                    let dur: u64 = parse_u64(secs)?;
                     Some(MaxStale(Some(Duration::new(dur, 0))))
                 }
                 None => Some(MaxStale(None)),
diff --git a/src/content/content_length.rs b/src/content/content_length.rs
index 4bae42f..9559b74 100644
--- a/src/content/content_length.rs
+++ b/src/content/content_length.rs
@@ -1,5 +1,5 @@
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, CONTENT_LENGTH};
-use crate::Status;
+use crate::utils::parse_u64;
 
 /// The size of the entity-body, in bytes, sent to the recipient.
 ///
@@ -47,7 +47,7 @@ impl ContentLength {
         // If we successfully parsed the header then there's always at least one
         // entry. We want the last entry.
         let value = headers.iter().last().unwrap();
-        let length = value.as_str().trim().parse::<u64>().status(400)?;
+        let length = parse_u64(value.as_str().trim())?;
         Ok(Some(Self { length }))
     }
 
diff --git a/src/other/retry_after.rs b/src/other/retry_after.rs
index 3cf66ee..76f3850 100644
--- a/src/other/retry_after.rs
+++ b/src/other/retry_after.rs
@@ -1,7 +1,7 @@
 use std::time::{Duration, SystemTime, SystemTimeError};
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, RETRY_AFTER};
-use crate::utils::{fmt_http_date, parse_http_date};
+use crate::utils::{fmt_http_date, parse_http_date, parse_u64};
 
 /// Indicate how long the user agent should wait before making a follow-up request.
 ///
@@ -64,7 +64,7 @@ impl RetryAfter {
             None => return Ok(None),
         };
 
-        let inner = match header.as_str().parse::<u64>() {
+        let inner = match parse_u64(header.as_str()) {
             Ok(dur) => RetryDirective::Duration(Duration::from_secs(dur)),
             Err(_) => {
                 let at = parse_http_date(header.as_str())?;
diff --git a/src/security/strict_transport_security.rs b/src/security/strict_transport_security.rs
index 6574042..b70cfea 100644
--- a/src/security/strict_transport_security.rs
+++ b/src/security/strict_transport_security.rs
@@ -1,5 +1,5 @@
 use crate::headers::{Header, HeaderName, HeaderValue, Headers};
-use crate::Status;
+use crate::utils::parse_u64;
 
 use crate::headers::STRICT_TRANSPORT_SECURITY;
 use std::time::Duration;
@@ -128,7 +128,7 @@ impl StrictTransportSecurity {
                         .strip_prefix('"')
                         .and_then(|value| value.strip_suffix('"'))
                         .unwrap_or(value);
-                    let secs = value.parse::<u64>().status(400)?;
+                    let secs = parse_u64(value)?;
                     max_age = Some(Duration::from_secs(secs));
                 }
             }
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index e15efa1..6616749 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -9,6 +9,16 @@ use crate::{Error, Status, StatusCode};
 use std::cmp::Ordering;
 use std::str::FromStr;
 
+/// Parse a number of the form `1*DIGIT`. Unlike `u64::from_str` this refuses a leading `+`.
+pub(crate) fn parse_u64(s: &str) -> crate::Result<u64> {
+    let mut err = Error::new_adhoc("invalid number");
+    err.set_status(StatusCode::BadRequest);
+    if !s.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(err);
+    }
+    s.parse().map_err(|_| err)
+}
+
 /// Parse a weight of the form `q=0.123`.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
     let mut parts = s.trim().split('=');
-- 
2.43.0


From b7e910340290388ec24f56fb833c14afbe98b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:46 +0000
Subject: [PATCH 38/48] fix: Cache-Control does not look for directives inside
 of quoted arguments

---
 src/cache/cache_control/cache_control.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cache/cache_control/cache_control.rs b/src/cache/cache_control/cache_control.rs
index deffd6b..eba1b7d 100644
--- a/src/cache/cache_control/cache_control.rs
+++ b/src/cache/cache_control/cache_control.rs
@@ -1,6 +1,7 @@
 use headers::Header;
 
 use crate::headers::{HeaderName, HeaderValue, Headers, CACHE_CONTROL};
+use crate::parse_utils::split_unquoted;
 use crate::{cache::CacheDirective, headers};
 
 use std::fmt::{self, Debug, Write};
@@ -50,7 +51,7 @@ impl CacheControl {
         };
 
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in split_unquoted(value.as_str().trim(), ',', true) {
                 // Try and parse a directive from a str. If the directive is
                 // unkown we skip it.
                 if let Some(entry) = CacheDirective::from_str(part)? {
-- 
2.43.0


From f33b157cf1d6168dafba52be9c0e362dbc7a3580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 39/48] fix: a status code is not deserialized from a number
 that is out of range

---
 src/status_code.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/status_code.rs b/src/status_code.rs
index 8814183..dc4f888 100644
--- a/src/status_code.rs
+++ b/src/status_code.rs
@@ -536,6 +536,7 @@ mod serde {
     use super::StatusCode;
     use serde_crate::de::{Error as DeError, Unexpected, Visitor};
     use serde_crate::{Deserialize, Deserializer, Serialize, Serializer};
+    use std::convert::TryFrom;
     use std::fmt;
 
     impl Serialize for StatusCode {
@@ -561,28 +562,30 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            self.visit_i64(v as i64)
         }
 
         fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            self.visit_i64(v as i64)
         }
 
         fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Signed(v), &self)),
+            }
         }
 
         fn visit_u16<E>(self, v: u16) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            use std::convert::TryFrom;
             match StatusCode::try_from(v) {
                 Ok(status_code) => Ok(status_code),
                 Err(_) => Err(DeError::invalid_value(
@@ -596,14 +599,17 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            self.visit_u64(v as u64)
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Unsigned(v), &self)),
+            }
         }
     }
 
-- 
2.43.0


From 7eb8780280cc6e0802ea4f0ff3cdf9d8adc4ad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 40/48] fix: security::powered_by sets and removes the
 X-Powered-By header of any spelling

---
 src/security/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/security/mod.rs b/src/security/mod.rs
index 2cb9b6a..a541440 100644
--- a/src/security/mod.rs
+++ b/src/security/mod.rs
@@ -118,7 +118,7 @@ pub fn frameguard(mut headers: impl AsMut<Headers>, guard: Option<FrameOptions>)
 // /// ```
 #[inline]
 pub fn powered_by(mut headers: impl AsMut<Headers>, value: Option<HeaderValue>) {
-    let name = HeaderName::from_lowercase_str("X-Powered-By");
+    let name = HeaderName::from_lowercase_str("x-powered-by");
     match value {
         Some(value) => {
             // Can never fail as value is already a HeaderValue, could use unsafe version of insert
-- 
2.43.0


From 77067ba0f3494dd2f52247d8fc265c1e25e3bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:50 +0000
Subject: [PATCH 41/48] fix: a content security policy can be applied more than
 once

---
 src/security/csp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/security/csp.rs b/src/security/csp.rs
index 9478f34..32b0c6e 100644
--- a/src/security/csp.rs
+++ b/src/security/csp.rs
@@ -345,13 +345,14 @@ impl ContentSecurityPolicy {
     }
 
     /// Create and retrieve the policy value
-    fn value(&mut self) -> String {
+    fn value(&self) -> String {
+        let mut lines = self.policy.clone();
         for (directive, sources) in &self.directives {
             let policy = format!("{} {}", directive, sources.join(" "));
-            self.policy.push(policy);
-            self.policy.sort();
+            lines.push(policy);
+            lines.sort();
         }
-        self.policy.join("; ")
+        lines.join("; ")
     }
 
     /// Sets the `Content-Security-Policy` (CSP) HTTP header to prevent cross-site injections
-- 
2.43.0


From a320f079e7a94b5722fd0080e7536e49ac003573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 42/48] fix: conversion of hyperium headers keeps all values
 and refuses non-ASCII ones

---
 src/hyperium_http.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 81d3342..6a83b41 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -96,17 +96,7 @@ impl TryFrom<http::HeaderMap> for Headers {
     fn try_from(hyperium_headers: http::HeaderMap) -> Result<Self, Self::Error> {
         let mut headers = Headers::new();
 
-        hyperium_headers
-            .into_iter()
-            .map(|(name, value)| {
-                if let Some(name) = name {
-                    let value: HeaderValue = value.try_into()?;
-                    let name: HeaderName = name.try_into()?;
-                    headers.append(name, value)?;
-                }
-                Ok(())
-            })
-            .collect::<Result<Vec<()>, Error>>()?;
+        hyperium_headers_to_headers(hyperium_headers, &mut headers)?;
 
         Ok(headers)
     }
@@ -144,13 +134,14 @@ fn hyperium_headers_to_headers(
     hyperium_headers: http::HeaderMap,
     headers: &mut Headers,
 ) -> crate::Result<()> {
+    // The name is only given along with the first of its values.
+    let mut current = None;
     for (name, value) in hyperium_headers {
-        let value = value.as_bytes().to_owned();
-        let value = unsafe { HeaderValue::from_bytes_unchecked(value) };
         if let Some(name) = name {
-            let name = name.as_str().as_bytes().to_owned();
-            let name = unsafe { HeaderName::from_bytes_unchecked(name) };
-            headers.append(name, value)?;
+            current = Some(HeaderName::try_from(name)?);
+        }
+        if let Some(name) = &current {
+            headers.append(name, HeaderValue::try_from(value)?)?;
         }
     }
     Ok(())
-- 
2.43.0


From 95b1d2051ee821e6a2f41a738a0e122c56c0b038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 43/48] fix: conversion of hyperium messages does not duplicate
 the content type

---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 6a83b41..b7a24c1 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -178,9 +178,9 @@ impl TryFrom<http::Request<Body>> for Request {
         let method = parts.method.into();
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
-        req.set_body(body);
         req.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, req.as_mut())?;
+        req.set_body(body);
         Ok(req)
     }
 }
@@ -203,9 +203,9 @@ impl TryFrom<http::Response<Body>> for Response {
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
         let mut res = Response::new(parts.status);
-        res.set_body(body);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
+        res.set_body(body);
         Ok(res)
     }
 }
-- 
2.43.0


From 65c36095ae3a9719a77c3a53555d41460d11c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:53 +0000
Subject: [PATCH 44/48] fix: conversion of hyperium messages with an unknown
 method or status is an error

---
 src/hyperium_http.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index b7a24c1..1051f57 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -175,7 +175,7 @@ impl TryFrom<http::Request<Body>> for Request {
 
     fn try_from(req: http::Request<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = req.into_parts();
-        let method = parts.method.into();
+        let method = Method::from_str(parts.method.as_str())?;
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
         req.set_version(Some(parts.version.into()));
@@ -202,7 +202,8 @@ impl TryFrom<http::Response<Body>> for Response {
     type Error = crate::Error;
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
-        let mut res = Response::new(parts.status);
+        let status = StatusCode::try_from(parts.status.as_u16())?;
+        let mut res = Response::new(status);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
         res.set_body(body);
-- 
2.43.0


From e0bd5fbf1d6f93de0f4dcc8318252c42d079e052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 45/48] fix: Request::host and remote read the first hop of
 Forwarded, however it is quoted and spaced

---
 src/request.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 964563b..cae7fe4 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -13,6 +13,7 @@ use crate::headers::{
     CONTENT_TYPE,
 };
 use crate::mime::Mime;
+use crate::parse_utils::split_unquoted;
 use crate::trailers::{self, Trailers};
 use crate::{Body, Extensions, Method, Url, Version};
 
@@ -115,29 +116,32 @@ impl Request {
         self.forwarded_header_part("host")
             .or_else(|| {
                 self.header("X-Forwarded-Host")
-                    .and_then(|h| h.as_str().split(',').next())
+                    .and_then(|h| h.as_str().split(',').next().map(str::trim))
             })
             .or_else(|| self.header(&headers::HOST).map(|h| h.as_str()))
             .or_else(|| self.url().host_str())
     }
 
     fn forwarded_header_part(&self, part: &str) -> Option<&str> {
-        self.header("Forwarded").and_then(|header| {
-            header.as_str().split(';').find_map(|key_equals_value| {
-                let parts = key_equals_value.split('=').collect::<Vec<_>>();
-                if parts.len() == 2 && parts[0].eq_ignore_ascii_case(part) {
-                    Some(parts[1])
-                } else {
-                    None
-                }
-            })
+        // Only the first element of the list is of interest.
+        let element = split_unquoted(self.header("Forwarded")?.as_str(), ',', true).next()?;
+        split_unquoted(element, ';', true).find_map(|key_equals_value| {
+            let mut parts = key_equals_value.trim().splitn(2, '=');
+            let (name, value) = (parts.next()?, parts.next()?);
+            if !name.eq_ignore_ascii_case(part) {
+                return None;
+            }
+            if !value.starts_with('"') {
+                return Some(value).filter(|value| !value.contains('='));
+            }
+            value.strip_prefix('"')?.strip_suffix('"')
         })
     }
 
     fn forwarded_for(&self) -> Option<&str> {
         self.forwarded_header_part("for").or_else(|| {
             self.header("X-Forwarded-For")
-                .and_then(|header| header.as_str().split(',').next())
+                .and_then(|header| header.as_str().split(',').next().map(str::trim))
         })
     }
 
-- 
2.43.0


From 9f3bc10b3bdae179ffe307727ea74bb53284d67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 46/48] fix: format_err! with an expression can be used outside
 of the crate

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index e29ae6c..6764610 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -78,7 +78,7 @@ macro_rules! format_err {
     };
     ($err:expr $(,)?) => ({
         let error = $err;
-        Error::new_adhoc(error)
+        $crate::private::new_adhoc(error)
     });
     ($fmt:expr, $($arg:tt)*) => {
         $crate::private::new_adhoc(format!($fmt, $($arg)*))
-- 
2.43.0


From 25d60253aa0abc1476422d2cb270a48ab28e8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:17 +0000
Subject: [PATCH 47/48] fix: Forwarded::parse refuses text that is not ASCII

---
 src/proxies/forwarded.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 0d57bad..b286170 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -215,6 +215,10 @@ impl<'a> Forwarded<'a> {
     /// # Ok(()) }
     /// ```
     pub fn parse(input: &'a str) -> Result<Self, ParseError> {
+        if !input.is_ascii() {
+            return Err(ParseError::new("forwarded values should be valid ASCII"));
+        }
+
         let mut input = input;
         let mut forwarded = Forwarded::new();
 
-- 
2.43.0


From 3ad4a5caa0bdc43494d7bb5432b3a1cf91d9ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 48/48] fix: sniff the media type of an already-open file from
 its start

---
 src/body.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/body.rs b/src/body.rs
index d893fc1..85493d3 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -630,6 +630,9 @@ impl AsyncBufRead for Body {
 /// This is used for various binary formats such as images and videos.
 #[cfg(all(feature = "fs", not(target_os = "unknown")))]
 async fn peek_mime(file: &mut async_std::fs::File) -> io::Result<Option<Mime>> {
+    // The body will be the whole file, wherever the cursor of an already-open file is.
+    file.seek(io::SeekFrom::Start(0)).await?;
+
     // We need to read the first 300 bytes to correctly infer formats such as tar.
     let mut buf = [0_u8; 300];
     let len = file.read(&mut buf).await?;
-- 
2.43.0

