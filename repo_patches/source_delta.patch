From 864fdb036b08b7248c18f3cc4e53bedfd46a8cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:23 +0000
Subject: [PATCH 01/11] fix: FromJSON always returned an empty body

The encoded bytes were copied into a nil slice.
---
 body/body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/body/body.go b/body/body.go
index 1c84c41..74d454a 100644
--- a/body/body.go
+++ b/body/body.go
@@ -202,6 +202,7 @@ func fromJSONImpl(v interface{}, isPretty bool) Body {
 			}
 		}
 	} else {
+		dst = make([]byte, len(src))
 		copy(dst, src)
 	}
 
-- 
2.43.0


From 7ec80fd0b0e4122b4312893c477a4069674e3b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:23 +0000
Subject: [PATCH 02/11] fix: WriteTo of an empty body returned io.EOF

io.WriterTo reports the end of the data as nil; io.Copy passed the io.EOF
on, so that serving an empty body failed.
---
 body/empty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/empty.go b/body/empty.go
index 94e752b..822e88e 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -96,7 +96,7 @@ func (body *emptyBody) WriteTo(w io.Writer) (int64, error) {
 		return 0, fs.ErrClosed
 	}
 
-	return 0, io.EOF
+	return 0, nil
 }
 
 func (body *emptyBody) Copy() (Body, error) {
-- 
2.43.0


From ecdb87e254092f2237da4cb8ad695d7e93f6456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:23 +0000
Subject: [PATCH 03/11] fix: bytesBody.WriteTo lost the rest after a failed or
 short write

The body was at EOF although bytes remained, and a short write without
error was reported as success.
---
 body/bytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/body/bytes.go b/body/bytes.go
index d7b14f8..f3ec04d 100644
--- a/body/bytes.go
+++ b/body/bytes.go
@@ -159,8 +159,11 @@ func (body *bytesBody) WriteTo(w io.Writer) (int64, error) {
 	n, err := w.Write(body.data[i:j])
 	assert.Assertf(n >= 0, "Write must return %d >= 0", n)
 	assert.Assertf(n <= avail, "Write must return %d <= %d", n, avail)
+	if n < avail && err == nil {
+		err = io.ErrShortWrite
+	}
 	body.offset += int(n)
-	body.eof = true
+	body.eof = (err == nil)
 	return int64(n), err
 }
 
-- 
2.43.0


From 6e7a15c1c72296f330bf685c2276609b0f57f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:23 +0000
Subject: [PATCH 04/11] fix: seekerBody.BytesRemaining read the shared length
 without its lock

That is a data race with Read and Close of any copy.  The result was also
negative for a copy positioned behind a newly found end of the data.
---
 body/seeker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index 34ac623..79bea2e 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -81,7 +81,12 @@ func (body *seekerBody) BytesRemaining() int64 {
 		return 0
 	}
 
-	return (body.common.length - body.offset)
+	length := body.common.BytesRemaining()
+	offset := body.offset
+	if offset >= length {
+		return 0
+	}
+	return (length - offset)
 }
 
 func (body *seekerBody) Read(p []byte) (int, error) {
-- 
2.43.0


From 883fa74183e6497ec0ef188fb3873660675cb8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:23 +0000
Subject: [PATCH 05/11] fix: seekerBody lost data when the reader returned
 short reads

Read reported io.EOF, and made it the end of every copy, when asked for more
than remained and the reader returned less than that.  ReadAt returned short
counts without error, or with io.EOF before the end.
---
 body/seeker.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/body/seeker.go b/body/seeker.go
index 79bea2e..c709609 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -65,6 +65,21 @@ func (common *seekerCommon) readAt(p []byte, offset int64) (int, error) {
 	return n, err
 }
 
+// readFullAt is like readAt but, as io.ReaderAt requires, it only returns less
+// than len(p) bytes together with an error.
+func (common *seekerCommon) readFullAt(p []byte, offset int64) (int, error) {
+	n, err := common.readAt(p, offset)
+	for n < len(p) && err == nil {
+		x := len(p) - n
+		var m int
+		m, err = common.s.Read(p[n:])
+		assert.Assertf(m >= 0, "Read must return %d >= 0", m)
+		assert.Assertf(m <= x, "Read must return %d <= %d", m, x)
+		n += m
+	}
+	return n, err
+}
+
 type seekerBody struct {
 	mu     sync.Mutex
 	common *seekerCommon
@@ -126,7 +141,7 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 	if avail > 0 {
 		n, err = common.readAt(p[0:x], offset)
 	}
-	if eof && err == nil {
+	if eof && int64(n) == x && err == nil {
 		err = io.EOF
 	}
 
@@ -232,7 +247,7 @@ func (body *seekerBody) ReadAt(p []byte, offset int64) (int, error) {
 		err error
 	)
 	if avail > 0 {
-		n, err = common.readAt(p[0:x], offset)
+		n, err = common.readFullAt(p[0:x], offset)
 	}
 	if eof && err == nil {
 		err = io.EOF
-- 
2.43.0


From 9bbaed6a007e4d57c53e61bb810296fc330609b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:23 +0000
Subject: [PATCH 06/11] fix: a read error truncated all copies of a body

Any error of the underlying reader, not only io.EOF, became the end of the
data for every copy: after a transient failure the others reported io.EOF
early, and BytesRemaining and Seek were wrong.
---
 body/readerat.go | 5 ++---
 body/seeker.go   | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/body/readerat.go b/body/readerat.go
index 41e392a..38fcd82 100644
--- a/body/readerat.go
+++ b/body/readerat.go
@@ -131,9 +131,8 @@ func (body *readerAtBody) Read(p []byte) (int, error) {
 	if err != nil {
 		body.err = err
 
-		length = offset
-		if length < common.length {
-			common.length = length
+		if err == io.EOF && offset < common.length {
+			common.length = offset
 		}
 	}
 
diff --git a/body/seeker.go b/body/seeker.go
index c709609..78c9455 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -151,9 +151,8 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 	if err != nil {
 		body.err = err
 
-		length = offset
-		if length < common.length {
-			common.length = length
+		if err == io.EOF && offset < common.length {
+			common.length = offset
 		}
 	}
 
-- 
2.43.0


From a3ea11a3b52a0ac1e2e80f9fe91f7fef7b0cd038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:54 +0000
Subject: [PATCH 07/11] fix: Serve leaked the body when a push failed or
 something panicked

---
 response/response.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/response/response.go b/response/response.go
index 9edc07f..b56d595 100644
--- a/response/response.go
+++ b/response/response.go
@@ -74,7 +74,20 @@ func (resp *Response) Copy() (*Response, error) {
 }
 
 // Serve serves the Response via the given ResponseWriter, consuming its Body.
-func (resp *Response) Serve(w http.ResponseWriter) error {
+//
+// The Body is closed in every case, even if Serve fails or panics.
+//
+func (resp *Response) Serve(w http.ResponseWriter) (err error) {
+	defer func() {
+		if resp.body == nil {
+			return
+		}
+		err2 := resp.body.Close()
+		if err == nil {
+			err = err2
+		}
+	}()
+
 	if x, ok := w.(http.Pusher); ok {
 		vlist := resp.hdrs[headerPush]
 		for _, url := range vlist {
@@ -94,12 +107,6 @@ func (resp *Response) Serve(w http.ResponseWriter) error {
 
 	w.WriteHeader(resp.code)
 
-	_, err := io.Copy(w, resp.body)
-
-	err2 := resp.body.Close()
-	if err == nil {
-		err = err2
-	}
-
+	_, err = io.Copy(w, resp.body)
 	return err
 }
-- 
2.43.0


From 161a82a053c48d67634805afb8b8a101cce5cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:55 +0000
Subject: [PATCH 08/11] fix: Serve shared the header values of a Response with
 the ResponseWriter

---
 response/response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/response/response.go b/response/response.go
index b56d595..ddf864a 100644
--- a/response/response.go
+++ b/response/response.go
@@ -101,7 +101,7 @@ func (resp *Response) Serve(w http.ResponseWriter) (err error) {
 	h := w.Header()
 	for k, vlist := range resp.hdrs {
 		if k != headerPush {
-			h[k] = vlist
+			h[k] = copyStrings(vlist)
 		}
 	}
 
-- 
2.43.0


From 154fc941ea9aa34b696d27e04db663d305cc0d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:12 +0000
Subject: [PATCH 09/11] fix: ReadFrom of a Writer did not record errors

---
 response/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/writer.go b/response/writer.go
index a4241e4..3570701 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -148,6 +148,9 @@ func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
 	assert.Assertf(n >= 0, "%d >= 0", n)
 	w.bytes += n
+	if err != nil {
+		w.sawError = true
+	}
 	return n, err
 }
 
-- 
2.43.0


From 8a28e9b77ab20f8a079f3b92549a8a3eec224a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:12 +0000
Subject: [PATCH 10/11] fix: Writer took informational statuses for the final
 one

---
 response/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/response/writer.go b/response/writer.go
index 3570701..525cce7 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -53,7 +53,11 @@ func (w *basicWriter) Header() http.Header {
 }
 
 func (w *basicWriter) writeHeaderImpl(status int) {
-	w.status = status
+	// Informational responses may precede the final one, except for 101
+	// (Switching Protocols) which is final.
+	if status >= http.StatusOK || status == http.StatusSwitchingProtocols {
+		w.status = status
+	}
 	w.next.WriteHeader(status)
 }
 
-- 
2.43.0


From 5920766346713efdf1c506b9d1c81358b6ff2624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 11/11] fix: Adaptor counted requests that failed early under
 code 0

---
 handler/adaptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler/adaptor.go b/handler/adaptor.go
index cd3ae56..005c35e 100644
--- a/handler/adaptor.go
+++ b/handler/adaptor.go
@@ -79,6 +79,7 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 
 	defer func() {
 		panicValue := recover()
+		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		code := strconv.Itoa(ww.Status())
 		elapsedDuration := time.Since(startTime)
 		elapsed := float64(elapsedDuration) / float64(time.Second)
@@ -86,7 +87,6 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 		sendBytes := float64(ww.BytesWritten())
 		labels := prometheus.Labels{"code": code}
 
-		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		if panicValue != nil {
 			PromPanicsTotal.Inc()
 		}
-- 
2.43.0

