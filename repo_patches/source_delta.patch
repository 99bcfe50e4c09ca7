From 6334ecf271c26d019c8428908eaef4d582ad918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:13 +0000
Subject: [PATCH 01/24] fix: a read error while receiving the head no longer
 panics the connection task

---
 octane_http/src/http1x/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/octane_http/src/http1x/mod.rs b/octane_http/src/http1x/mod.rs
index 59703d7..5f63ffd 100644
--- a/octane_http/src/http1x/mod.rs
+++ b/octane_http/src/http1x/mod.rs
@@ -24,7 +24,10 @@ where
         let mut buf: [u8; 512] = [0; 512];
 
         loop {
-            let read = instance.raw_request.reader.read(&mut buf).await.unwrap();
+            let read = match instance.raw_request.reader.read(&mut buf).await {
+                Ok(read) => read,
+                Err(_) => return Err(StatusCode::BadRequest),
+            };
             if read == 0 {
                 return Err(StatusCode::BadRequest);
             }
-- 
2.43.0


From d5f91606eb6ca12ded3b7e11c2b31946aa59b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:13 +0000
Subject: [PATCH 02/24] fix: answer malformed header lines with 400 instead of
 panicking

---
 src/server.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 7fb9528..abd4401 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -172,7 +172,12 @@ impl Octane {
         let mut data = Vec::new();
         let parsed = Http1xReader::new(RawRequest1x::new(reader), &mut data).await;
         if let Ok((raw_headers, raw_request_line, body_remainder, reader_left)) = parsed {
-            let headers = Headers::parse(raw_headers).unwrap();
+            let headers = match Headers::parse(raw_headers) {
+                Some(headers) => headers,
+                None => {
+                    declare_error!(writer, StatusCode::BadRequest);
+                }
+            };
             let request_line = RequestLine::parse(raw_request_line).unwrap();
             if let Some(request) = Request::from_raw(
                 &headers,
-- 
2.43.0


From 1b4cb1d8154fda38d4562119b46830edeb6f2dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:13 +0000
Subject: [PATCH 03/24] fix: answer malformed request lines with 400 instead of
 panicking

---
 src/request.rs | 7 ++-----
 src/server.rs  | 7 ++++++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index dbbc713..0a11317 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -87,12 +87,9 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = match PathBuf::parse(toks.next()?) {
-            Ok(val) => val,
-            Err(e) => panic!("{:?}", e),
-        };
+        let path = PathBuf::parse(toks.next()?).ok()?;
         let version = toks.next()?;
-        let (first, ver) = version.split_at(5);
+        let (first, ver) = (version.get(..5)?, version.get(5..)?);
         let enum_ver = match ver {
             "1.1" => HttpVersion::Http11,
             "1.0" => HttpVersion::Http10,
diff --git a/src/server.rs b/src/server.rs
index abd4401..f331fd7 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -178,7 +178,12 @@ impl Octane {
                     declare_error!(writer, StatusCode::BadRequest);
                 }
             };
-            let request_line = RequestLine::parse(raw_request_line).unwrap();
+            let request_line = match RequestLine::parse(raw_request_line) {
+                Some(request_line) => request_line,
+                None => {
+                    declare_error!(writer, StatusCode::BadRequest);
+                }
+            };
             if let Some(request) = Request::from_raw(
                 &headers,
                 request_line,
-- 
2.43.0


From c25f6a6dbf37c792c40955298214e1df9fd78cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:13 +0000
Subject: [PATCH 04/24] fix: a body cut short no longer panics the connection
 task

---
 src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index 0a11317..c44b286 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -305,7 +305,7 @@ impl<'a> Request<'a> {
         if body_len > 0 {
             if body_remainder.len() < body_len {
                 let mut temp: Vec<u8> = vec![0; body_len - body_remainder.len()];
-                reader.read_exact(&mut temp[..]).await.ok().unwrap();
+                reader.read_exact(&mut temp[..]).await.ok()?;
                 *body_vec = Vec::with_capacity(body_len);
                 body_vec.extend_from_slice(body_remainder);
                 body_vec.extend_from_slice(&temp[..]);
-- 
2.43.0


From 6c83da6e175b289bb0d7ef856482b3d39d9d62bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:13 +0000
Subject: [PATCH 05/24] fix: bytes after the declared body are not part of the
 body

---
 src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index c44b286..1ef95e6 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -311,7 +311,7 @@ impl<'a> Request<'a> {
                 body_vec.extend_from_slice(&temp[..]);
                 body = &body_vec[..];
             } else {
-                body = body_remainder;
+                body = &body_remainder[..body_len];
             }
         } else {
             body = &[];
-- 
2.43.0


From eb70a4bb6001bd109f6a6b53b3c690ef6931fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:18 +0000
Subject: [PATCH 06/24] fix: memory for a body grows with the data received,
 not with the announced length

---
 src/request.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 1ef95e6..a8faf6a 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -296,7 +296,7 @@ impl<'a> Request<'a> {
         mut body: &'a [u8],
         body_vec: &'a mut Vec<u8>,
         body_remainder: &'a [u8],
-        mut reader: ReadHalf<T>,
+        reader: ReadHalf<T>,
     ) -> Option<Request<'a>> {
         let body_len = headers
             .get("content-length")
@@ -304,11 +304,13 @@ impl<'a> Request<'a> {
             .unwrap_or(0);
         if body_len > 0 {
             if body_remainder.len() < body_len {
-                let mut temp: Vec<u8> = vec![0; body_len - body_remainder.len()];
-                reader.read_exact(&mut temp[..]).await.ok()?;
-                *body_vec = Vec::with_capacity(body_len);
+                // grow with the data that arrives, the announced length is not trusted
+                let missing = (body_len - body_remainder.len()) as u64;
                 body_vec.extend_from_slice(body_remainder);
-                body_vec.extend_from_slice(&temp[..]);
+                reader.take(missing).read_to_end(body_vec).await.ok()?;
+                if body_vec.len() < body_len {
+                    return None;
+                }
                 body = &body_vec[..];
             } else {
                 body = &body_remainder[..body_len];
-- 
2.43.0


From 1c933d0754158b61891b0f333d1ef97ead1f2c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:06 +0000
Subject: [PATCH 07/24] fix: an unintelligible Content-Length is a bad request,
 not an empty body

---
 src/request.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index a8faf6a..300d015 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -298,10 +298,10 @@ impl<'a> Request<'a> {
         body_remainder: &'a [u8],
         reader: ReadHalf<T>,
     ) -> Option<Request<'a>> {
-        let body_len = headers
-            .get("content-length")
-            .and_then(|s| s.parse().ok())
-            .unwrap_or(0);
+        let body_len = match headers.get("content-length") {
+            Some(s) => s.trim().parse().ok()?,
+            None => 0,
+        };
         if body_len > 0 {
             if body_remainder.len() < body_len {
                 // grow with the data that arrives, the announced length is not trusted
-- 
2.43.0


From aee10e2e653c3b9fc092fd7006c4fe15f10f186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:06 +0000
Subject: [PATCH 08/24] fix: terminate every Set-Cookie line so that the header
 block ends with a blank line

---
 src/responder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index 851bf8c..ec968fd 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -505,9 +505,8 @@ impl<'a> Response<'a> {
             &self
                 .cookies
                 .iter()
-                .map(|cookie| cookie.serialise())
-                .collect::<Vec<String>>()
-                .join(CRLF),
+                .map(|cookie| cookie.serialise() + CRLF)
+                .collect::<String>(),
         );
         headers_str
     }
-- 
2.43.0


From 8d6c0bdd2cf75df5357d99bc57658f9da7d675b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:06 +0000
Subject: [PATCH 09/24] fix: skip malformed cookies instead of panicking the
 connection task

---
 src/cookie.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cookie.rs b/src/cookie.rs
index 201316e..922b52a 100644
--- a/src/cookie.rs
+++ b/src/cookie.rs
@@ -71,9 +71,9 @@ impl<'a> Cookie<'a> {
         let mut cookies_vec = Vec::new();
         let header_cookies = header.split("; ");
         for tok in header_cookies {
-            cookies_vec.push(Cookie {
-                cookie: CookieRs::parse(tok).unwrap(),
-            });
+            if let Ok(cookie) = CookieRs::parse(tok) {
+                cookies_vec.push(Cookie { cookie });
+            }
         }
         cookies_vec
     }
-- 
2.43.0


From cfcb2d23497ee207ef8e2a596bae59333420ab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:06 +0000
Subject: [PATCH 10/24] fix: file bodies are sent instead of being dropped, and
 interrupted reads are retried

---
 src/util.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 9fadf91..524928a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,5 +1,5 @@
 use octane_http::http1x::find_in_slice;
-use std::io::Read;
+use std::io::{ErrorKind, Read};
 use std::iter::FusedIterator;
 use std::ops::Deref;
 use std::pin::Pin;
@@ -64,7 +64,13 @@ impl<T: Read + Unpin> Deref for AsyncReader<T> {
 
 impl<T: Read + Unpin> AsyncRead for AsyncReader<T> {
     fn poll_read(mut self: Pin<&mut Self>, _: &mut Context, buf: &mut ReadBuf) -> Poll<Result<()>> {
-        self.reader.read(buf.initialized_mut())?;
+        let n = loop {
+            match self.reader.read(buf.initialize_unfilled()) {
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                res => break res?,
+            }
+        };
+        buf.advance(n);
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From 8601fe6ce94df760fd7c78128734218d284bed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:53 +0000
Subject: [PATCH 11/24] fix: announce the length of a sent file, replacing one
 left by an earlier body

---
 src/responder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index ec968fd..d71ae2e 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -10,7 +10,7 @@ use std::fmt;
 use std::io::Cursor;
 use std::marker::PhantomData;
 use std::path::PathBuf;
-use tokio::io::AsyncRead;
+use tokio::io::{AsyncRead, AsyncReadExt};
 
 pub(crate) type BoxReader = Box<dyn AsyncRead + Unpin + Send>;
 
@@ -226,7 +226,10 @@ impl<'a> Response<'a> {
         );
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
-        self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
+        // never send more than announced, even if the file grows meanwhile
+        let reader = file.file.take(len as u64);
+        self.body = ResBody::Sized(len, Box::new(reader) as BoxReader);
+        self.default_headers();
         Ok(Some(()))
     }
 
-- 
2.43.0


From 66cea44b50fabbd1191ef83971428ff3357dad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:53 +0000
Subject: [PATCH 12/24] fix: a failed accept no longer shuts the listener down

---
 src/server_builder.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/server_builder.rs b/src/server_builder.rs
index 7a0a5fb..f72cc0d 100644
--- a/src/server_builder.rs
+++ b/src/server_builder.rs
@@ -36,12 +36,18 @@ impl ServerBuilder {
         C: FnOnce(TcpStream, Arc<Octane>) -> T + Send + 'static + Copy,
     {
         while let Some(stream) = self.socket.next().await {
-            stream.map(|stream| {
-                let server = Arc::clone(&server);
-                task!({
-                    exec(stream, server).await;
-                })
-            })?;
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(_) => {
+                    // a failed accept concerns one connection, not the listener
+                    tokio::task::yield_now().await;
+                    continue;
+                }
+            };
+            let server = Arc::clone(&server);
+            task!({
+                exec(stream, server).await;
+            });
         }
         Ok(())
     }
@@ -56,7 +62,13 @@ impl ServerBuilder {
         let acceptor = crate::tls::openssl::acceptor(&server.settings)?;
         while let Some(stream) = ssl_listener.next().await {
             let acceptor = acceptor.clone();
-            let tcp_stream = stream?;
+            let tcp_stream = match stream {
+                Ok(tcp_stream) => tcp_stream,
+                Err(_) => {
+                    tokio::task::yield_now().await;
+                    continue;
+                }
+            };
             let server = Arc::clone(&server);
 
             task!({
@@ -88,7 +100,13 @@ impl ServerBuilder {
 
             let server = Arc::clone(&server);
 
-            let tcp_stream = stream?;
+            let tcp_stream = match stream {
+                Ok(tcp_stream) => tcp_stream,
+                Err(_) => {
+                    tokio::task::yield_now().await;
+                    continue;
+                }
+            };
             task!({
                 let stream = acceptor.accept(tcp_stream).await;
                 if let Ok(stream_ssl) = stream {
-- 
2.43.0


From 803ba428cebb9b90c23634819a91a1e2250250fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:53 +0000
Subject: [PATCH 13/24] fix: set SO_REUSEADDR before bind so that a restart can
 take its port back

---
 src/server_builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server_builder.rs b/src/server_builder.rs
index f72cc0d..8992643 100644
--- a/src/server_builder.rs
+++ b/src/server_builder.rs
@@ -22,9 +22,10 @@ impl ServerBuilder {
         let socket = Socket::new(Domain::ipv4(), stream, None)?;
         socket.set_nonblocking(true)?;
         let bind_add = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(0, 0, 0, 0)), port);
+        // has to be set before bind to have an effect
+        socket.set_reuse_address(true)?;
         socket.bind(&SockAddr::from(bind_add))?;
         socket.listen(2048)?;
-        socket.set_reuse_address(true)?;
         Ok(ServerBuilder {
             socket: TcpListener::from_std(socket.into_tcp_listener())?,
         })
-- 
2.43.0


From d3ce0fbf6c2b3147773f8f2c7b93fc3158aa1cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:53 +0000
Subject: [PATCH 14/24] fix: September is Sep in an HTTP date

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index e066d0f..6239c2a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -10,7 +10,7 @@ pub const CRLF: &str = "\r\n";
 pub const B_CRLF: &[u8] = b"\r\n";
 pub const WEEKS: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
 pub const MONTHS: [&str; 12] = [
-    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec",
+    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
 ];
 
 // constants for time.rs
-- 
2.43.0


From 6b50585c18cd3ac653185525d2e04689b873d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:53 +0000
Subject: [PATCH 15/24] fix: a clock before 1970 no longer panics the
 connection task

---
 src/time.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time.rs b/src/time.rs
index 0a5534a..358ab62 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -35,7 +35,8 @@ impl Time {
                     return None;
                 }
             }
-            Err(m) => panic!("Got time error: {}", m),
+            // clock set to before 1970
+            Err(_) => return None,
         };
         Self::time(stamp)
     }
-- 
2.43.0


From 259f15208a896e66be03662cad24507f46f26204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:53 +0000
Subject: [PATCH 16/24] fix: content type of .bin files

---
 src/file_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_handler.rs b/src/file_handler.rs
index e57a2e7..23435c8 100644
--- a/src/file_handler.rs
+++ b/src/file_handler.rs
@@ -78,7 +78,7 @@ impl FileHandler {
             "abw" => "application/x-abiword",
             "arc" => "application/x-freearc",
             "azw" => "application/vnd.amazon.ebook",
-            "bin" => "applcation/octet-stream",
+            "bin" => "application/octet-stream",
             "bz" => "application/x-bzip",
             "bz2" => "application/x-bzip2",
             "csh" => "application/x-csh",
-- 
2.43.0


From f41a213fa9978fda31637d2e4f4ee3d9c5623007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:53 +0000
Subject: [PATCH 17/24] fix: close TLS connections with close_notify

---
 src/server.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.rs b/src/server.rs
index f331fd7..3209a5b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -229,6 +229,7 @@ impl Octane {
     {
         stream_async.write_all(response.0.as_bytes()).await?;
         copy(&mut response.1, &mut stream_async).await?;
+        stream_async.shutdown().await?;
         Ok(())
     }
 }
-- 
2.43.0


From fd7052d35a5fe3c2440cbc72dfc26a978c3a5b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:53 +0000
Subject: [PATCH 18/24] fix: accept requests without headers

---
 octane_http/src/http1x/mod.rs | 15 ++++++++++-----
 src/request.rs                |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/octane_http/src/http1x/mod.rs b/octane_http/src/http1x/mod.rs
index 5f63ffd..43c749a 100644
--- a/octane_http/src/http1x/mod.rs
+++ b/octane_http/src/http1x/mod.rs
@@ -76,9 +76,14 @@ pub fn find_in_slice<T: Eq>(haystack: &[T], needle: &[T]) -> Option<usize> {
 
 // Helper function for extracting some headers
 pub(crate) fn parse_without_body(data: &str) -> Option<(&str, String)> {
-    let n = data.find("\r\n")?;
-    let (line, rest) = data.split_at(n);
-    let request_line = line;
-    let headers = (&rest[2..]).to_owned();
-    Some((request_line, headers))
+    match data.find("\r\n") {
+        Some(n) => {
+            let (line, rest) = data.split_at(n);
+            let request_line = line;
+            let headers = (&rest[2..]).to_owned();
+            Some((request_line, headers))
+        }
+        // a request without any header
+        None => Some((data, String::new())),
+    }
 }
diff --git a/src/request.rs b/src/request.rs
index 300d015..f941f9a 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -205,7 +205,7 @@ impl Headers {
         let mut headers: HashMap<String, String> = HashMap::new();
         #[cfg(feature = "raw_headers")]
         let mut raw_headers: Vec<Header> = Vec::new();
-        for tok in toks {
+        for tok in toks.filter(|_| !request.is_empty()) {
             let parsed = Header::parse(match str::from_utf8(tok) {
                 Ok(s) => s.to_owned(),
                 Err(_) => return None,
-- 
2.43.0


From 9719135db032436852711885f30e0fe52c7008c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:16 +0000
Subject: [PATCH 19/24] fix: the query string is not part of the path

---
 src/request.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index f941f9a..29ef5f8 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -79,6 +79,8 @@ pub struct RequestLine {
     pub path: PathBuf,
     /// Http version of the request
     pub version: HttpVersion,
+    // What follows the first `?` of the request target
+    pub(crate) query: String,
 }
 
 impl RequestLine {
@@ -87,7 +89,9 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = PathBuf::parse(toks.next()?).ok()?;
+        let mut target = toks.next()?.splitn(2, '?');
+        let path = PathBuf::parse(target.next()?).ok()?;
+        let query = target.next().unwrap_or("").to_owned();
         let version = toks.next()?;
         let (first, ver) = (version.get(..5)?, version.get(5..)?);
         let enum_ver = match ver {
@@ -117,6 +121,7 @@ impl RequestLine {
             method: request_method,
             path,
             version: enum_ver,
+            query,
         })
     }
 }
@@ -335,14 +340,14 @@ impl<'a> Request<'a> {
     /// }));
     /// ```
     pub fn get_query(&self) -> HashMap<String, String> {
-        parse_query(&self.request_line.path.to_string())
+        parse_query(&self.request_line.query)
     }
 
     /// Parse the extended query and return the key value pairs in the form
     /// of an HashMap. See [`QueryValue`](../enum.QueryValue.html)
     #[cfg(feature = "extended_queries")]
     pub fn get_extended_query(&self) -> HashMap<String, QueryValue> {
-        parse_extended_query(&self.request_line.path.to_string())
+        parse_extended_query(&self.request_line.query)
     }
 }
 
-- 
2.43.0


From 7c9931549fb6a13a6322336d5fdddc8f64ec4700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:30 +0000
Subject: [PATCH 20/24] fix: decode percent escapes in queries as UTF-8, not
 byte by byte as Latin-1

---
 src/query.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index af56205..24a0f12 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -1,39 +1,41 @@
 use std::collections::HashMap;
 
 pub fn unescape_hex(string: &str) -> String {
-    let mut ret = "".to_owned();
+    // escapes stand for bytes, several of them may form one character
+    let mut ret: Vec<u8> = Vec::with_capacity(string.len());
+    let mut buf = [0; 4];
     let mut chars = string.chars();
     let mut peekable = DoublePeek::new(&mut chars);
     while let Some(val) = peekable.next() {
         if val != '%' {
-            ret.push(val);
+            ret.extend_from_slice(val.encode_utf8(&mut buf).as_bytes());
         } else {
             peekable.unpeek = true;
             let c1 = match peekable.peek() {
                 Some(&v) => v,
                 None => {
-                    ret.push('%');
+                    ret.push(b'%');
                     continue;
                 }
             };
             let c2 = match peekable.peek() {
                 Some(&v) => v,
                 None => {
-                    ret.push('%');
+                    ret.push(b'%');
                     continue;
                 }
             };
             let (h1, h2) = (from_hex(c1), from_hex(c2));
             if h1.is_none() || h2.is_none() {
-                ret.push('%');
+                ret.push(b'%');
                 continue;
             }
-            ret.push((h1.unwrap() * 16 + h2.unwrap()) as char);
+            ret.push(h1.unwrap() * 16 + h2.unwrap());
             peekable.next();
             peekable.next();
         }
     }
-    ret
+    String::from_utf8_lossy(&ret).into_owned()
 }
 
 pub struct DoublePeek<'a, T>
-- 
2.43.0


From 933632143aa3b421f07b89463fbb07d148e3c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:30 +0000
Subject: [PATCH 21/24] fix: with_ssl_config takes over the port of the given
 Ssl too

---
 src/config.rs | 3 +--
 src/server.rs | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index c961d2e..aff153c 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -250,8 +250,7 @@ impl Config for OctaneConfig {
     }
 
     fn with_ssl_config(&mut self, ssl_conf: Ssl) {
-        self.ssl.key = ssl_conf.key;
-        self.ssl.cert = ssl_conf.cert;
+        self.ssl = ssl_conf;
     }
     fn ssl(&mut self, port: u16) -> &mut Ssl {
         self.ssl.port = port;
diff --git a/src/server.rs b/src/server.rs
index 3209a5b..424337b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -273,8 +273,7 @@ impl Config for Octane {
         self.settings.keep_alive = Some(duration);
     }
     fn with_ssl_config(&mut self, ssl_conf: Ssl) {
-        self.settings.ssl.key = ssl_conf.key;
-        self.settings.ssl.cert = ssl_conf.cert;
+        self.settings.ssl = ssl_conf;
     }
     fn ssl(&mut self, port: u16) -> &mut Ssl {
         self.settings.ssl.port = port;
-- 
2.43.0


From ec3e0d6003d7c385e31108e8242f844a9c755d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:02 +0000
Subject: [PATCH 22/24] fix: header values may contain tabs, and surrounding
 white space is not part of them

---
 src/path.rs    | 2 +-
 src/request.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index b308960..a054686 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -438,7 +438,7 @@ deref!(MatchedPath<'a, T>, T, data);
 deref!(PathBuf, Vec<String>, chunks);
 
 pub fn is_ctl(c: char) -> bool {
-    c < '\x1f' || c == '\x7f'
+    c <= '\x1f' || c == '\x7f'
 }
 
 fn get_second<T>(tup: (PathChunk, PathNode<T>)) -> PathNode<T> {
diff --git a/src/request.rs b/src/request.rs
index 29ef5f8..e2e9794 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -154,8 +154,8 @@ impl Header {
                 TOKEN_CHARS.get(&c)?;
             }
         }
-        let value = toks.next()?.trim_start_matches(|c| c == SP || c == HT);
-        if cfg!(feature = "faithful") && value.chars().any(is_ctl) {
+        let value = toks.next()?.trim_matches(|c| c == SP || c == HT);
+        if cfg!(feature = "faithful") && value.chars().any(|c| c != HT && is_ctl(c)) {
             return None;
         }
         Some(Self {
-- 
2.43.0


From 7ad38f74ce82ff2d43506164d25610efcd58dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:29 +0000
Subject: [PATCH 23/24] fix: response headers that differ in case only are one
 header

---
 src/responder.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index d71ae2e..c5308b3 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -93,6 +93,8 @@ impl<'a> Response<'a> {
     /// );
     /// ```
     pub fn set(&mut self, key: &str, value: &str) -> &mut Self {
+        // header names are case insensitive
+        self.headers.retain(|k, _| !k.eq_ignore_ascii_case(key));
         self.headers.insert(key.to_owned(), value.to_owned());
         self
     }
@@ -114,7 +116,10 @@ impl<'a> Response<'a> {
     /// );
     /// ```
     pub fn get(&mut self, field: &'static str) -> Option<&String> {
-        self.headers.get(field)
+        self.headers
+            .iter()
+            .find(|(k, _)| k.eq_ignore_ascii_case(field))
+            .map(|(_, v)| v)
     }
     /// Puts the given text to the body and send it
     /// as html by default
@@ -147,13 +152,12 @@ impl<'a> Response<'a> {
     /// if no content header is sent
     pub fn default_headers(&mut self) -> &mut Self {
         if let Some(x) = self.content_len {
-            self.headers
-                .insert("Content-Length".to_string(), x.to_string());
+            self.set("Content-Length", &x.to_string());
         }
         if let Some(date) = Time::now() {
-            self.headers.insert("Date".to_string(), date.format());
+            self.set("Date", &date.format());
         }
-        if self.headers.get("Content-Type").is_none() {
+        if self.get("Content-Type").is_none() {
             let mut format = String::from("text/html");
             if let Some(charset) = &self.charset {
                 format.push_str(&format!(" ;charset={:?}", charset));
@@ -220,10 +224,7 @@ impl<'a> Response<'a> {
     /// ```
     pub fn send_file(&mut self, file: &str) -> Result<Option<()>, Box<dyn Error>> {
         let file = FileHandler::handle_file(&PathBuf::from(file))?;
-        self.headers.insert(
-            "Content-Type".to_string(),
-            FileHandler::mime_type(file.extension),
-        );
+        self.set("Content-Type", &FileHandler::mime_type(file.extension));
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
         // never send more than announced, even if the file grows meanwhile
-- 
2.43.0


From 67732492c458fe4fd6428af82fc1673304b4757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:29 +0000
Subject: [PATCH 24/24] fix: header and cookie values cannot break out of their
 line

---
 src/responder.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index c5308b3..2af3701 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -500,22 +500,32 @@ impl<'a> Response<'a> {
     fn headers(&self) -> String {
         let mut headers_str = String::new();
         // push normal headers
-        self.headers
-            .iter()
-            .for_each(|data| headers_str.push_str(&format!("{}:{}{}{}", data.0, SP, data.1, CRLF)));
+        self.headers.iter().for_each(|data| {
+            headers_str.push_str(&one_line(format!("{}:{}{}", data.0, SP, data.1)));
+            headers_str.push_str(CRLF)
+        });
         // push cookies
         #[cfg(feature = "cookies")]
         headers_str.push_str(
             &self
                 .cookies
                 .iter()
-                .map(|cookie| cookie.serialise() + CRLF)
+                .map(|cookie| one_line(cookie.serialise()) + CRLF)
                 .collect::<String>(),
         );
         headers_str
     }
 }
 
+// A header must not be able to end its line, whatever it contains
+fn one_line(header: String) -> String {
+    if header.contains(|c| matches!(c, '\r' | '\n' | '\0')) {
+        header.replace(|c| matches!(c, '\r' | '\n' | '\0'), " ")
+    } else {
+        header
+    }
+}
+
 #[cfg(feature = "cookies")]
 impl Default for Response<'_> {
     fn default() -> Self {
-- 
2.43.0

