#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one record per property)."""
import json, sys
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ROOT_UNTESTED = "The root package and netx have no test that runs without a MySQL server; the xproto tests sample a handful of literals on empty buffers."

prop("C01", "A transmitted unit of work is a sequence of complete X Protocol frames",
  "For every sequence of builder calls, the bytes handed to the sender are exactly the concatenation, in call order, of complete frames: a 4-byte little-endian length equal to the number of bytes that follow it, the client-message type byte of the operation, and that many bytes of body. No stale, uninitialised or left-over buffer byte is ever part of what is sent.",
  ["inputs", "histories", "configurations"], "all builder operations, all argument lengths and values, all initial buffer capacities, all earlier contents of a reused buffer",
  ROOT_UNTESTED + " Length headers of Insert and Update are explicitly skipped by the tests.",
  ["builder.go", "crud.go", "xproto/xproto.go", "xproto/prepare.go", "xproto/expect.go", "xproto/insert.go", "xproto/update.go", "slice/slice.go"],
  [("length patching after the body is encoded", "builder.go Insert/InsertRow/Update, crud.go InsertF/UpdateF, xproto StmtExecute/Execute/Delete"),
   ("precomputed lengths", "xproto/prepare.go Prepare, Deallocate; xproto/expect.go ExpectOpen, ExpectClose")],
  ["bytes passed to netx.Sender.Send"],
  [("buf", "bytes of the unit of work built so far", "builder.go Builder")])

prop("C02", "Building an operation never disturbs operations already built",
  "Whatever the buffer capacity, fill level and payload size, a builder call only adds bytes after those already built: every earlier operation is transmitted unchanged and in its original position. After Reset the next unit of work contains nothing of the previous one, neither bytes nor error.",
  ["inputs", "histories", "configurations"], "all buffer lengths and capacities, all payload sizes that do or do not trigger regrowth, all operation sequences including reuse after Reset",
  "Every test starts from a nil buffer, so neither the in-place nor the regrow path is exercised with content to lose.",
  ["slice/slice.go", "builder.go", "crud.go", "xproto/expr.go", "xproto/insert.go", "xproto/update.go", "xpipe.go"],
  [("grow-or-reslice helpers that must copy the head", "slice/slice.go ForAppend, Insert"),
   ("insertion of headers before already encoded parameters", "xproto/expr.go AppendExprOperator, AppendExprFunctionCall; xproto/update.go AppendUpdateSet; xproto/insert.go AppendInsertRow")],
  ["bytes passed to netx.Sender.Send"])

prop("C03", "Every message body is a valid protobuf of the X Protocol message it claims",
  "Every message the library builds decodes as the protocol message its type byte names: each field number exists in that message and has the right wire type, each nested length covers exactly its content for every content length, all required fields are present and enum values are defined ones. This holds for session, authentication, capability, expectation, prepared-statement, SQL and CRUD messages alike.",
  ["inputs", "programs"], "all messages, all operand values, all string/byte lengths including those at varint-width boundaries (127/128, 16383/16384, ...)",
  "Hand-written encoders compute nested lengths arithmetically; tests decode a few short inputs, never a length at a varint boundary, and never Expect, CapabilitySet, AuthenticateStart/Continue, Placeholder or Variable.",
  ["xproto/any.go", "xproto/expr.go", "xproto/insert.go", "xproto/update.go", "xproto/xproto.go", "xproto/prepare.go", "xproto/expect.go", "xproto/authentication.go", "xproto/protobuf.go"],
  [("size precomputation with varint widths", "xproto/protobuf.go sizeVarint*, putUvarint, appendWireString/Bytes"),
   ("tag and wire-type constants", "xproto/*.go tag constants")],
  ["bytes returned by xproto builders", "bytes passed to netx.Sender.Send"])

prop("C04", "SQL and prepared-statement calls transmit exactly what the caller passed",
  "StmtExecute, Prepare, Execute and Deallocate transmit exactly the statement text, the full 32-bit statement id and every argument once, in order, that the caller passed; nothing is dropped, truncated, reordered or added.",
  ["inputs"], "all statement texts, ids 0..2^32-1, all argument lists",
  "Tests use three ids and at most two arguments and do not compare the arguments.",
  ["builder.go", "xproto/xproto.go", "xproto/prepare.go"],
  [("argument loop", "xproto/xproto.go StmtExecute, xproto/prepare.go Execute"), ("varint statement id", "xproto/prepare.go")],
  ["bytes passed to netx.Sender.Send"])

prop("C05", "CRUD calls transmit exactly the table, columns, values and criteria given",
  "Insert, InsertF and InsertRow transmit the given table, the columns in order and each row's values in column order; Update, UpdateF and Delete transmit the given table, the given criteria (all rows only when none is given) and, for updates, one assignment of the given value for each given column; all of them address the table data model. A bulk insert with a row whose number of values differs from the number of columns is refused, and InsertRow also stores the generated id in a variable unique to that row within the unit of work, which the expression it returns refers to.",
  ["inputs", "histories"], "all table/column names, row counts and sizes, criteria, assignment sets, sequences of InsertRow",
  "Tests call the xproto layer with one table and do not check values, criteria or the data model of Insert/Delete; the builder layer is untested.",
  ["builder.go", "crud.go", "xproto/insert.go", "xproto/update.go", "xproto/xproto.go"],
  [("row/column loops", "builder.go Insert, crud.go Insert.Row, xproto/insert.go"), ("criteria appended under the criteria field", "xproto/update.go Update, xproto/xproto.go Delete"),
   ("unique id variable", "builder.go InsertRow")],
  ["bytes passed to netx.Sender.Send"])

prop("C06", "Every bind argument is transmitted as the same value, or refused",
  "Every Go value accepted as a statement argument (nil, bool, every integer width, floats, string, byte slice, time.Time, time.Duration, pointers to these, and values that encode themselves) is transmitted as a scalar of the matching kind that decodes to the same value; nil, nil pointers and nil byte slices become NULL. Times keep date, time of day and nanoseconds; durations keep sign, hours, minutes and whole seconds over the whole Duration range; any other type is refused with an error rather than sent as something else.",
  ["inputs"], "all values of all supported types (e.g. all 2^64 integers), all other dynamic types",
  "Tests sample boundary values of each width; values in between (each varint width), pointers, self-encoding values and extreme durations are not sampled.",
  ["xproto/any.go", "xproto/scalar.go", "xproto/protobuf.go"],
  [("type switch", "xproto/any.go appendAny"), ("zigzag and varint byte banging", "xproto/any.go appendAny*"), ("duration formatting", "xproto/scalar.go AppendDuration")],
  ["bytes passed to netx.Sender.Send by StmtExecute and Execute"])

prop("C07", "Every expression literal and typed wrapper keeps its value and type",
  "Every Go value used as an expression operand, inserted value or assigned value is transmitted as a literal of the matching kind that decodes to the same value, an expression is transmitted as itself, and any other type is refused with an error. The String, XML, JSON and Geometry wrappers transmit exactly their content with exactly their collation or content type, the same as argument and as expression.",
  ["inputs"], "all values of all supported types, all wrapper contents (nil, empty, long) and collations",
  "Tests sample a few literals and no wrapper type at all.",
  ["xproto/expr.go", "expr.go", "xproto/scalar.go"],
  [("type switch", "xproto/expr.go appendExpr"), ("wrapper methods", "expr.go AppendAny/AppendExpr methods")],
  ["bytes produced for an expression operand"])

prop("C08", "Each expression constructor denotes its documented operator and operand order",
  "Every exported expression constructor produces the protocol operator or function that its name documents, with all its operands present in argument order; column references name the given column. Two different constructors never denote the same operation.",
  ["inputs", "programs"], "all constructors and all operands",
  "No test calls any constructor of the root package without a server; a wrong operator name or swapped operands compiles and passes.",
  ["expr.go", "xproto/expr.go"],
  [("operator name strings", "expr.go constructors"), ("operand slices", "expr.go In/NotIn, xproto/expr.go AppendExprOperator")],
  ["bytes produced by the returned expression"])

prop("C09", "A build error is sticky, suppresses transmission and is reported by Send",
  "Once any step of a unit of work fails (an unsupported value, a row of the wrong width, an unknown isolation level, a failing expression, or an error returned by a callback), nothing of that unit of work is transmitted and Send returns a non-nil error; no later builder call clears that condition. Only Reset makes the builder usable again; an error is reported, never turned into a panic.",
  ["histories", "fault_sequences"], "all operations as the failing step, all operations afterwards, all nesting of callbacks, failing encoders that return any buffer",
  "No test provokes an encoding error or a failing callback.",
  ["builder.go", "crud.go", "xpipe.go", "xproto/xproto.go"],
  [("error guard at the start of every operation", "builder.go, crud.go"), ("error check before sending", "builder.go send"), ("callback error propagation", "builder.go call, crud.go InsertF/UpdateF")],
  ["netx.Sender.Send calls and Send's result"],
  [("err", "first build error", "builder.go Builder")])

prop("C10", "The transaction helper brackets its body with the right begin and a commit",
  "For every isolation level the transaction helper transmits, in this order and exactly once each: the statement selecting exactly that level (none for default and snapshot), the start of a transaction (with consistent snapshot only for the snapshot level), the body, and COMMIT last. An unknown level or a failing body results in nothing being transmitted, so a failed body is never committed.",
  ["inputs", "histories", "fault_sequences"], "all isolation level values, all bodies including failing ones",
  "Needs a server; the level-to-SQL table is never inspected by a test.",
  ["builder.go"], [("level switch and statement order", "builder.go Tx"), ("child builder hand-over", "builder.go call")],
  ["bytes passed to netx.Sender.Send"])

prop("C11", "Expectation blocks enclose exactly their body and demand no errors",
  "A fail-on-error block transmits one expectation-open demanding no error with the requested context inheritance, then the body, then exactly one matching expectation-close; blocks nest properly. Condition encodings sent to the server carry the requested key and value.",
  ["inputs", "histories"], "both context modes, all bodies and nesting",
  "No test builds or decodes an expectation block without a server.",
  ["builder.go", "xproto/expect.go"], [("open / call / close", "builder.go ExpectFailOnError"), ("condition encoders", "xproto/expect.go")],
  ["bytes passed to netx.Sender.Send"])

prop("C12", "Only the innermost active builder accepts operations",
  "While a nested builder is active inside a callback, every operation on an enclosing builder (including Send and Reset) panics before it can change the unit of work, and when the callback returns the enclosing builder accepts operations again. A nested builder kept after its callback returned is refused the same way and can never alter what is transmitted.",
  ["histories", "programs"], "all operations on the outer builder from inside every kind of callback; all uses of a nested builder after its callback",
  "Misuse from inside a callback is not tested.",
  ["builder.go", "crud.go"], [("disabled flag", "builder.go call, crud.go InsertF/UpdateF"), ("guard at the start of every operation", "builder.go")],
  ["panics and bytes passed to netx.Sender.Send"],
  [("disabled", "builder may not be used now", "builder.go Builder")])

prop("C13", "A unit of work is one write under the deadline, one response per message",
  "Sending on a connection first applies the caller's deadline (or clears an old one), then writes the whole unit of work with a single write, and then reads exactly one response per transmitted message, returned in order; if setting the deadline, writing or reading fails the error is returned. A message's response is interpreted knowing which kind of message it answers.",
  ["histories", "fault_sequences", "inputs"], "all units of work, all context deadlines, failures at each I/O step",
  "netx has no tests.",
  ["netx/connection/connection.go"], [("deadline, write, read sequence", "netx/connection/connection.go Send, WriteOne, ReadResponsesToSlice")],
  ["calls on net.Conn and returned responses"])

prop("C14", "Response reading stays aligned with server frames",
  "For every stream of server frames, each response read consumes whole frames only: after a response has been returned without a connection error, the next byte read is the first byte of the next frame, whatever the frame's type and whether or not it fits the read buffer. Malformed lengths and truncated streams produce errors, never panics or endless reading of the same bytes.",
  ["inputs", "histories", "fault_sequences"], "all server byte streams, all frame sizes relative to the read buffer, short reads at every point",
  "netx has no tests.",
  ["netx/connection/connection.go"], [("peek, discard and full-read accounting", "netx/connection/connection.go Read")],
  ["bytes consumed from the connection per response"])

prop("C15", "Server outcomes are classified correctly for every message",
  "A response ends at the server's OK, authentication-OK or statement-OK message and reports success; notices, metadata, rows and other intermediate messages never end a response. A server error is reported with its severity, code, SQL state and text: fatal ones, and any error answering session reset or authentication, fail the call, while other errors are returned as that message's response so that the remaining responses are still read.",
  ["inputs", "histories"], "all server message types in answer to all client message types, all error severities",
  "netx has no tests.",
  ["netx/connection/connection.go", "netx/connection/errors.go"], [("message-type switch", "netx/connection/connection.go Read"), ("severity test", "netx/connection/errors.go IsFatal")],
  ["values returned for each response"])

prop("C16", "Authentication succeeds only on the server's say-so and follows the challenge",
  "Authentication reports success only after the server accepted the last authentication message sent. A challenge is answered exactly once, with the mechanism's continuation computed from that challenge, and only if the mechanism has one; a second or unsolicited challenge, a server error or an I/O error makes authentication fail with that error.",
  ["histories", "fault_sequences"], "all server reply sequences, all mechanisms",
  "netx has no tests.",
  ["netx/connection/connection.go"], [("start / continue exchange", "netx/connection/connection.go Authenticate, Read")],
  ["messages written and returned error"])

prop("C17", "Authentication messages carry the right identity and proof",
  "For every database, user, password and challenge, each mechanism sends its registered mechanism name and exactly database, NUL, user, NUL, followed by: the password for PLAIN; for MYSQL41, nothing for an empty password and otherwise '*' and the hex of SHA1(password) XOR SHA1(challenge + SHA1(SHA1(password))); for SHA256_MEMORY the hex of SHA256(password) XOR SHA256(SHA256(SHA256(password)) + challenge). The two hashing mechanisms never put the password itself on the wire.",
  ["inputs"], "all credentials (any length, empty or not) and challenges, all scratch-buffer capacities",
  "No test covers the authentication packages.",
  ["netx/connector/authentication/mysql41/mysql41.go", "netx/connector/authentication/sha256/sha256.go", "netx/connector/authentication/plain/plain.go", "xproto/authentication.go", "slice/slice.go"],
  [("in-place hash scratch areas", "mysql41.go, sha256.go Continue"), ("scratch allocation", "slice/slice.go Allocate")],
  ["authentication messages written"])

prop("C18", "Requested TLS is never skipped and passwords never travel in clear by fallback",
  "When TLS is configured for a TCP connection, no authentication message is written, and no reply to one read, before the TLS handshake succeeded, and from then on all traffic uses the TLS channel with nothing buffered before the handshake being trusted; if TLS cannot be established the attempt fails. The automatic retry that sends the clear-text password happens only after the server denied access and only over TLS or a Unix socket.",
  ["configurations", "fault_sequences", "histories"], "all connector configurations, all server replies, failures at each step",
  "netx has no tests.",
  ["netx/connector/connector.go", "netx/connection/connection.go"], [("TLS upgrade", "netx/connector/connector.go New"), ("secure test", "netx/connection/connection.go IsSecure, Reset")],
  ["writes on the raw and TLS connections"])

prop("C19", "A failed connection attempt leaves nothing open; a successful one is usable",
  "Whenever establishing a connection fails at any step after dialling, the network connection is closed and an error is returned with no connection; whenever it succeeds, the returned connection is open, authenticated and no error is returned.",
  ["fault_sequences", "configurations"], "failures at every step (capability request, TLS handshake, authentication, fallback), all configurations",
  "netx has no tests.",
  ["netx/connector/connector.go"], [("close on failure paths", "netx/connector/connector.go New")],
  ["Close calls and results of connecting"])

prop("C20", "A pooled connection has one user at a time and a failed one is never reused",
  "Each call on the pool uses one connection that no other call can obtain until it is put back; it is put back or closed exactly once, and a connection on which the call failed is closed and never handed out again. Connection failures and an already finished context are reported as errors without using a connection.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of callers, all failures of connecting and sending, full or empty pools",
  "The pool has no tests; concurrency schedules cannot be sampled.",
  ["netx/pool/fifoch/fifoch.go"], [("take, use, put back or close", "netx/pool/fifoch/fifoch.go Send")],
  ["Close and Send calls per connection"],
  [("ch", "idle connections", "netx/pool/fifoch/fifoch.go")])

prop("C21", "Closing a pool is safe, final and leaves no idle connection open",
  "Closing a pool, concurrently with senders or repeatedly, never panics; after it every send is refused with the pool-closed error, every idle connection has been closed, and a connection that was in use during the close is closed when its call ends instead of becoming idle in the closed pool.",
  ["schedules", "histories"], "all interleavings of Close with Send and with other Close calls",
  "The pool has no tests; the races need particular schedules.",
  ["netx/pool/fifoch/fifoch.go"], [("pool state under the mutex", "netx/pool/fifoch/fifoch.go Close, Send")],
  ["panics, refused sends and Close calls"])

prop("C22", "Decimal decoding takes sign and digits from the right nibbles",
  "For every well-formed packed decimal (a scale byte, digit nibbles, then a sign nibble; at least as many digits as the scale), text form and decomposed form are negative exactly for the sign nibbles B and D, and consume the same digits, high nibble before low, up to the sign nibble. The text has the point before its last scale digits; the exponent is minus the scale; each digit extends the coefficient by exactly value*10+digit in 256-bit arithmetic, and the coefficient's bytes are that number in big endian order.",
  ["inputs"], "all packed decimals (any number of digits, odd or even, both sign nibbles)",
  "The types package has no tests.",
  ["types/decimal.go"], [("nibble loop", "types/decimal.go Decompose, String"), ("multi-word multiply-add", "types/decimal.go MulAdd")],
  ["results of String and Decompose"])

prop("C23", "Collation ids and names agree with each other and with MySQL",
  "Every exported collation constant has MySQL's id for that collation, and converting any known collation id to text yields exactly that collation's MySQL name; unknown ids yield a distinct placeholder. Only the binary collation reports itself binary.",
  ["inputs"], "all collation ids",
  "The collation package has no tests; names are substrings of one long literal addressed by 250+ hand-written offsets.",
  ["collation/collation.go"], [("offset table", "collation/collation.go collationMap"), ("constants", "collation/collation.go")],
  ["Collation.String, Collation.IsBinary, constants"])

prop("C24", "Server error code constants have MySQL's numbers",
  "Every exported server error code constant has the number MySQL assigns to that error, so that comparisons with codes received from the server mean what they say.",
  ["inputs"], "all error code constants",
  "No test compares any error code.",
  ["netx/connection/errs/codes.go"], [("constant table", "netx/connection/errs/codes.go")],
  ["constants of the errs package"])

prop("C25", "Generated protocol bindings agree with the protocol definition files",
  "Every message field (number, wire kind, label), enum value and embedded descriptor in the generated Go bindings agrees with the shipped protocol definition files, so that what is decoded and the constants used for encoding mean what the protocol says.",
  ["programs"], "all messages, fields and enums of the twelve definition files",
  "Tests encode and decode with the same bindings, so a consistent error in both is invisible.",
  ["protobuf/"], [("generated structs, enum constants and raw descriptors", "protobuf/*/*.pb.go"), ("definition files", "protobuf/*.proto")],
  ["generated constants, struct tags and descriptors"])

prop("N01", "Cancelling a context promptly aborts I/O in progress",
  "If the caller's context is cancelled while a unit of work is being written or its responses awaited, the call returns soon after with the context's error.",
  ["schedules"], "all cancellation instants",
  "Timing and scheduling of a blocked system call.",
  ["netx/connection/connection.go"], [("only the deadline is forwarded to the connection", "netx/connection/connection.go Send")], ["return time of Send"])

prop("N02", "A unit of work is atomic on the server",
  "Either all statements of a transaction take effect on the MySQL server or none does, also when the client or the network fails at any point.",
  ["crash_points", "fault_sequences"], "all crash points of client, network and server",
  "Needs the server's behaviour, which is not part of this repository.",
  ["builder.go"], [("expectation block around a transaction", "README.md")], ["server state"])

open("/verif/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
