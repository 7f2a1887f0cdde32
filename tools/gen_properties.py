#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe, hook_needed=hook)))

B = "body/"
BODIES = ["body/bytes.go", "body/readerat.go", "body/seeker.go", "body/buffered.go", "body/empty.go"]
NOHOOK = None

p("C01", "A Body delivers exactly its source's bytes, in order, then EOF",
  "Reading a Body to the end yields exactly the bytes from its position to the end of its source (or to the declared length, when the source is longer), in order, with nothing lost, duplicated or altered. io.EOF is reported only after every one of those bytes has been delivered, and then keeps being reported. This holds whatever the source's capabilities, short reads, stalls, empty reads or data-with-EOF returns, whatever buffer sizes the callers use, and however reads of several copies interleave.",
  ["inputs", "schedules", "fault_sequences"],
  "every source kind and capability set, every source length (including around the 64 KiB block) and declared length, every sequence of short/empty/stalled/early-EOF reads by the source, every sequence of buffer sizes, every interleaving of reads on copies",
  "The unit tests read a 4-byte source one byte at a time through mocks that always return full reads; no short read, no multi-block source, no second copy and no interleaving is ever exercised.",
  BODIES,
  [("bufferedBody.Read fills a shared buffer up to the requested offset and serves from it", "body/buffered.go"),
   ("readerAtBody.Read / seekerBody.Read clamp to the known length and turn the end into io.EOF", "body/readerat.go, body/seeker.go"),
   ("bytesBody.Read", "body/bytes.go")],
  ["Body.Read results (n, err, bytes)"],
  [("bufferedCommon.bytes/start", "buffered window of the stream shared by copies", "body/buffered.go"),
   ("length", "shared knowledge of where the source ends", "body/*.go")])

p("C02", "Copies of a Body have independent cursors",
  "Body.Copy returns a Body that represents the same remaining bytes at the same position, and nothing done afterwards to one of the two (reading, seeking, positioned reads, writing out, copying again, closing) changes the bytes, position, length or openness of the other. This holds even when they share a Reader that supports no such operation.",
  ["histories", "schedules", "inputs"],
  "every history of operations over a growing and shrinking family of copies, made at every position (start, middle, end, after EOF, after an error), in every interleaving",
  "No existing test calls Copy at all.",
  BODIES,
  [("per-body offset over a shared, reference-counted source", "body/*.go Copy methods"),
   ("bufferedCommon.updateStart keeps every byte some copy still needs", "body/buffered.go")],
  ["Body.Copy and all operations on both instances"],
  [("bufferedCommon.bodies / refcnt / start", "which copies exist and the slowest cursor", "body/buffered.go")])

p("C03", "A failing source is never mistaken for the end of the data",
  "When the underlying Reader fails with an error other than io.EOF, a Body that runs into the failure reports that error, never io.EOF and never success with missing bytes, and whatever it delivered before is correct. If the source supports seeking or positioned reads, a failure met by one Body does not change what its copies deliver, or what the same Body delivers after it seeks and retries. If the source is a plain stream, every copy delivers all bytes that precede the failure and then that failure.",
  ["fault_sequences", "schedules"],
  "every placement of transient and permanent read/seek errors (alone or together with partial data) in the sequence of calls on the source, every set of copies and positions at that moment, every order in which they go on",
  "No existing test makes a source fail; the mocks only ever return nil or io.EOF.",
  ["body/readerat.go", "body/seeker.go", "body/buffered.go"],
  [("body.err remembers the failure per body; common.length is the end shared by all copies", "body/readerat.go, body/seeker.go"),
   ("bufferedCommon.err is the stream's final state, shared by all copies", "body/buffered.go")],
  ["Body.Read / ReadAt results after injected source faults"])

p("C04", "The reader is closed exactly once, by the last copy, and not used afterwards",
  "When a Body is backed by a Reader that implements io.Closer, the Reader's Close is called exactly once, during the Close of the last open Body attached to it, and that call returns the Reader's close error; every earlier Close of a copy returns nil and leaves the Reader open. The Reader receives no call of any kind after it has been closed, and closing all copies always closes it, whatever errors occurred before.",
  ["schedules", "histories", "fault_sequences"],
  "every history and interleaving of Copy, Close (including repeated Close) and reads over any number of copies, with and without earlier source errors or EOF, and with a Close that itself fails",
  "Tests close a single body once; no test has two copies, a failing Close or concurrent Copy and Close.",
  ["body/readerat.go", "body/seeker.go", "body/buffered.go"],
  [("reference counting in ref/unref under the common lock", "body/readerat.go, body/seeker.go"),
   ("bufferedCommon.bodies set; the reader is closed when it empties", "body/buffered.go")],
  ["io.Closer calls on the source, Body.Close results"],
  [("refcnt", "number of attached bodies", "body/readerat.go, body/seeker.go")])

p("C05", "A closed Body is inert",
  "Once Close has returned on a Body, Read, ReadAt, Seek, WriteTo and a second Close fail with fs.ErrClosed and transfer nothing, BytesRemaining is 0, Unwrap is nil and Copy yields a Body that is also closed; this is so for every kind of Body, whatever state it was closed in (mid-stream, at EOF, after an error, after its reader's Close failed), and no such call reaches the underlying Reader or disturbs copies that are still open. While it is open, a reader-backed Body's Unwrap returns the Reader it was made from.",
  ["histories", "schedules", "fault_sequences"],
  "every state in which a Body can be closed, every call after it, and every interleaving of the Close with other calls on the same Body and on its copies",
  "Tests close a body once in one state (just after EOF), sequentially, without copies; Copy and Unwrap are never called on a closed body.",
  BODIES + ["body/closed.go"],
  [("closed flag checked under the body's lock by every method", "body/*.go"),
   ("Copy of a closed body returns the closed singleton", "body/closed.go")],
  ["all Body methods after Close"])

p("C06", "BytesRemaining is exact whenever it is known",
  "BytesRemaining is either -1 (length not yet known) or exactly the number of bytes that the Body still has to deliver, never any other negative number; it is 0 after the Body has reported EOF, falls by exactly the number of bytes each Read or WriteTo delivered, and follows Seek. Once the source turns out to end earlier than declared, it reflects the real end for every copy that has found it out, and it never goes below zero for copies that are positioned beyond it.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every source kind, declared-versus-real length, position, sequence of operations on the body and its copies, and source truncation or failure at any point",
  "Tests look at it at the start and the end of one fault-free 4-byte read by one body.",
  BODIES,
  [("length minus offset, clamped", "body/*.go BytesRemaining"),
   ("the shared length is corrected when the source ends early", "body/readerat.go, body/seeker.go, body/buffered.go")],
  ["Body.BytesRemaining compared with what later reads deliver"])

p("C07", "Seek moves exactly one cursor, exactly where it says",
  "A successful Seek returns the new absolute position, which is the requested one clamped to the end of the data, and the next Read starts exactly there, also when the Body had been at EOF or had met a source failure. A Seek with an unknown whence or a target before the start returns an error and leaves the position unchanged; no Seek ever affects a copy.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every offset and whence (including extreme values), from every position and state, interleaved with operations on the body and its copies and with source faults",
  "Tests check a fixed handful of seeks on a 4-byte source with no copies and no faults.",
  ["body/bytes.go", "body/readerat.go", "body/seeker.go", "body/empty.go"],
  [("whence arithmetic and clamping; eof/err reset", "body/*.go Seek")],
  ["Seek results and the bytes of following reads"])

p("C08", "ReadAt is positioned, complete and does not move the cursor",
  "ReadAt(p, off) on a Body that offers it delivers exactly the source bytes at off, returns a non-nil error whenever it returns fewer than len(p) bytes (io.EOF only when the data really ends there, otherwise the source's error), rejects negative offsets, and never changes the position of the Body or of any copy. This includes Bodies that emulate ReadAt over a seekable Reader, whose reads may be short.",
  ["inputs", "schedules", "fault_sequences"],
  "every offset and length, every position of the body and its copies, every sequence of short reads and errors by the underlying source, every interleaving with Read and Seek",
  "Tests make four ReadAt calls on a 4-byte source that never returns a short read, with a single body.",
  ["body/bytes.go", "body/readerat.go", "body/seeker.go", "body/empty.go"],
  [("clamped positioned read, or Seek followed by Read under the common lock", "body/readerat.go, body/seeker.go readAt")],
  ["ReadAt results and the bytes of following reads"])

p("C09", "WriteTo loses nothing, whatever the writer does",
  "WriteTo on a Body that offers it hands the remaining bytes to the writer in order and returns the number the writer accepted; it returns nil exactly when all remaining bytes were accepted (an empty Body succeeds with 0, nil), and otherwise the writer's error or io.ErrShortWrite. Bytes the writer did not accept remain in the Body: BytesRemaining counts them and later reads or a retried WriteTo deliver them exactly once.",
  ["inputs", "fault_sequences", "histories"],
  "every remaining length including zero, every point at which the writer stops short or fails, every sequence of retries and reads afterwards, and writers that stall while copies are used",
  "No test calls WriteTo.",
  ["body/bytes.go", "body/empty.go", "body/closed.go"],
  [("bytesBody.WriteTo / emptyBody.WriteTo", "body/bytes.go, body/empty.go")],
  ["WriteTo results, bytes received by the writer, later reads"])

p("C10", "Bodies may be used from many goroutines at once",
  "Concurrent operations by any number of goroutines, on one Body or on copies that share a source, behave as if executed one at a time in some order consistent with real time, without data races and without deadlock: once the source stops stalling every operation completes. A Reader that cannot be used concurrently (plain or seeking reads, Close) is never entered by two goroutines at once.",
  ["schedules", "fault_sequences"],
  "every interleaving of operations of several goroutines over shared and separate bodies of one family, with sources that stall, fail or end early at any call",
  "Every existing test is single-threaded.",
  BODIES,
  [("a mutex per body and one per shared source, taken in that order", "body/*.go")],
  ["the history of invocations and responses; calls on the source; conflicting memory accesses"])

p("C11", "FromReader succeeds completely or fails cleanly, and never over-reads",
  "FromReader and FromReaderAndLength either return a Body over the whole source (starting at its beginning if it is seekable) whose known length is the declared one or else the one reported by Stat or Seek, or return no Body together with the error of the failing Stat or Seek; a failed construction does not close or read the Reader. A Body with a known length never consumes bytes of a plain stream beyond that length, and when the source offers positioned reads plus seeking or Stat (or just seeking) the Body offers ReadAt and Seek. A Body passed to FromReader is returned as it is.",
  ["configurations", "fault_sequences", "inputs"],
  "every combination of optional interfaces on the reader, every declared length, every reader position at construction, a Stat or Seek failure at each construction call, followed by any use",
  "Tests build one body per capability set from a 4-byte mock, with no failing Stat or Seek and with no bytes after the declared length.",
  ["body/body.go", "body/buffered.go", "body/readerat.go", "body/seeker.go"],
  [("capability detection and length discovery in FromReaderAndLength", "body/body.go"),
   ("reads clamped to the remaining known length", "body/buffered.go")],
  ["constructor results; calls the source receives; bytes left in the stream"])

p("C12", "Serve sends exactly the response it was given, or says it did not",
  "Serving a Response gives the ResponseWriter the response's status exactly once, before any body byte, with exactly the response's headers (apart from Push, which turns into push requests in order), and then the body's bytes in order; it never sends a byte that is not the body's next one. Serve returns nil only if every byte of the body was accepted by the ResponseWriter, and otherwise the error of the body, its Close, the push or the write.",
  ["inputs", "fault_sequences", "schedules"],
  "every status, header set and body kind (including empty, failing and slow ones), every kind of ResponseWriter (plain, flushing, ReaderFrom, Pusher), and a disconnect, short write, push failure, source failure or close failure at every point",
  "The response package has no tests.",
  ["response/response.go", "response/writer.go", "body/bytes.go", "body/empty.go"],
  [("Response.Serve: pushes, header copy, WriteHeader, io.Copy, Close", "response/response.go")],
  ["calls received by the ResponseWriter; Serve's result"])

p("C13", "Serve always releases the response body",
  "However serving a Response ends (completely, with a failed push, a client that disconnects, a body that fails, or a panic out of the ResponseWriter or the body's source), the Response's Body has been closed exactly once by the time Serve returns or the panic leaves it, so that the reader behind it is closed once its other copies are.",
  ["fault_sequences", "schedules"],
  "every point at which pushing, writing the header, writing the body, reading the body or closing it can fail or panic, for every body kind and with or without other open copies",
  "The response package has no tests.",
  ["response/response.go"],
  [("Response.Serve closes the body", "response/response.go")],
  ["Close calls on the response's Body and its source"])

p("C14", "Writer accounting matches what the client was really sent",
  "At every moment Status is the final status passed downstream (0 before), BytesWritten is exactly the number of body bytes the downstream ResponseWriter accepted, whether through Write or ReadFrom and including partial writes, and SawError is true once a downstream write has failed or a second final status was attempted, and stays false as long as nothing failed. Every call (Write, ReadFrom, Flush, Push, Header) is passed on unchanged and its result returned unchanged.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of header, write, read-from, flush and push calls, on every kind of downstream writer and request method, with partial writes and failures at every point",
  "The response package has no tests.",
  ["response/writer.go"],
  [("basicWriter.Write / fancyWriter.ReadFrom count and latch errors", "response/writer.go")],
  ["Status, BytesWritten, SawError against the downstream writer's own record"],
  [("bytes/status/sawError", "what has been passed on so far", "response/writer.go")])

p("C15", "The header goes out once, first, and bodiless responses stay bodiless",
  "Through a Writer, at most one final status reaches the downstream ResponseWriter and it precedes every body byte and flush: the first of WriteHeader, MaybeWriteHeader, Write, ReadFrom or Flush decides it (200 for the last three), later MaybeWriteHeader calls change nothing and a later WriteHeader is refused and reported. Informational (1xx) statuses do not count as the final one. For HEAD requests and 204 responses no body byte reaches the client, yet writers are told that all their bytes were taken.",
  ["histories", "inputs"],
  "every sequence of header, write, read-from and flush calls with every status, method and kind of downstream writer, with failures in between",
  "The response package has no tests.",
  ["response/writer.go"],
  [("MaybeWriteHeader before every write; isHEAD/204 suppression", "response/writer.go")],
  ["order and content of calls the downstream ResponseWriter receives"])

p("C16", "Copies of Responses and Builders are isolated from each other",
  "Copy of a Response or a Builder yields one with the same status, headers, error, page generator and remaining body bytes; afterwards nothing done to one (serving it, closing or consuming its body, changing a Builder's headers, or the receiving ResponseWriter's header map being modified while it is served) shows up in the other, and copies may be served concurrently without data races. When a body cannot be copied, Copy reports it and returns nothing.",
  ["schedules", "histories", "fault_sequences"],
  "every history of Copy, header changes, Build and Serve over a family of builders and responses, with copies served concurrently in every interleaving to writers that modify their header maps, stall or disconnect",
  "The response package has no tests.",
  ["response/builder.go", "response/response.go", "response/util.go"],
  [("copyHeaders/copyBody; header copying in Serve", "response/util.go, response/response.go")],
  ["headers, status and bytes that each served copy delivers"])

p("C17", "Build hands over a complete response and empties the Builder",
  "Build returns a Response with exactly what the Builder was given: the status (200 if none), the headers, the error and the Body, of which the Response becomes the only owner; Content-Type defaults to application/octet-stream, and Content-Length, unless already set, is present exactly when the body's length is known and equals the number of body bytes that serving will deliver. The Builder keeps only its page generator, and nothing done with it later affects the Response. Headers passed in with WithHeaders are copied, so later changes by the caller have no effect.",
  ["histories", "inputs", "configurations"],
  "every sequence of builder calls, partly consumed and copied bodies of every kind and of known or unknown length, reuse of the builder after Build, and sources whose real length differs from the declared one or is discovered by another copy between calls",
  "The response package has no tests.",
  ["response/builder.go"],
  [("Builder.Build moves the fields out and fills in the two headers", "response/builder.go")],
  ["Response accessors and the bytes actually served against Content-Length"])

p("C18", "Every request is counted exactly once, under the status the client saw",
  "Each request served through an Adaptor adds exactly one to http_requests_total under the status code that the client received (500 when the handler died before anything was sent), adds the body bytes really sent and the elapsed time to the per-code totals and exactly one observation to each histogram, and adds one to http_panics_total exactly if handling panicked or serving failed. Totals are exact under any number of concurrent requests, and elapsed time is never negative, however the wall clock is adjusted meanwhile.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of concurrent requests, with handlers, bodies and clients that stall, fail, panic or disconnect at any point, and wall-clock jumps in both directions during a request",
  "The handler package has no tests.",
  ["handler/adaptor.go", "response/writer.go"],
  [("deferred accounting in Adaptor.ServeHTTP", "handler/adaptor.go")],
  ["the exported Prometheus collectors before and after; the statuses and bytes clients received"])

p("C19", "A failing handler is contained and reported exactly once",
  "If the handler panics or the response cannot be served, the Adaptor does not let the panic escape: OnPanic is called exactly once with the error (a non-error panic value arrives wrapped with its value), after the metrics are updated; it is not called for requests that succeed. If nothing had been sent, the client gets status 500 with no body and no leftover header of the failed response; if the response had begun, nothing more is sent, and the truncated response is not passed off to the client as a complete one. Other requests, concurrent or later, are unaffected.",
  ["fault_sequences", "schedules"],
  "every point at which a handler, body source, push or client connection can fail or panic, with every kind of panic value, and every interleaving with other requests",
  "The handler package has no tests.",
  ["handler/adaptor.go", "handler/onpanic.go", "response/response.go"],
  [("deferred recover in Adaptor.ServeHTTP", "handler/adaptor.go")],
  ["panics leaving ServeHTTP; OnPanic calls; what the client received"])

p("C20", "Serialised payload bodies are complete and never change afterwards",
  "FromJSON and FromPrettyJSON (and WithJSON, WithPrettyJSON) yield a Body holding exactly one JSON encoding of the given value, pretty ones indented with CRLF line ends, and FromProto and FromProtoText (and WithProto, WithProtoText) one encoding of the given message. Those bytes do not change afterwards, whatever other bodies are built, concurrently or later, and whatever happens to the value; a value that cannot be encoded panics and leaves other bodies and later calls intact.",
  ["schedules", "inputs", "histories"],
  "every interleaving of goroutines building and reading payload bodies that share the pool of scratch buffers, every reuse choice the pool makes, and encoders that fail or yield in the middle",
  "One test formats one small array once, and looks at an internal field; nothing builds two bodies or anything concurrently, and non-pretty JSON is not tested.",
  ["body/body.go", "response/builder.go"],
  [("scratch buffer from bufferpool, result copied before the buffer is returned", "body/body.go fromJSONImpl")],
  ["bytes read from the bodies, at once and later"])

p("C21", "A MockReader hands out each expectation once, in order",
  "Each call on a MockReader consumes exactly the next expectation, no matter how many goroutines call it or through which wrapper: a call that matches returns that expectation's results, and a call that does not match, or comes after the last one, panics with a description of that position and both calls. No expectation is used twice or skipped.",
  ["schedules", "histories"],
  "every interleaving of calls by several goroutines through every wrapper, matching and not matching the script",
  "MockReader is only used as a helper by single-threaded tests; it has none of its own.",
  ["internal/mockreader/mockreader.go"],
  [("next() advances the index under the mutex", "internal/mockreader/mockreader.go")],
  ["results and panics of MockReader calls"])

p("C22", "Generated redirect and error pages are well formed",
  "The default page generator escapes the location in the redirect page, sets Location to it unescaped, sets a Content-Length equal to the length of the page, and renders error pages with the status line of the given code.",
  ["inputs"],
  "every location and status code",
  "The response package has no tests.",
  ["response/pagegen.go"],
  [("defaultPageGenerator", "response/pagegen.go")],
  ["generated headers and bodies"])

p("C23", "Header helpers of the Builder produce canonical header values",
  "WithContentType normalises the media type and panics on an invalid one, WithContentLanguage and WithContentEncoding trim their value, WithETag quotes the tag and marks weak ones, and WithDigest appends the algorithm with the base64 sum; each touches no other header.",
  ["inputs"],
  "every argument value",
  "The response package has no tests.",
  ["response/builder.go"],
  [("With... methods", "response/builder.go")],
  ["Builder.Headers"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        if x["anchors"]["state"] == []: del x["anchors"]["state"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
