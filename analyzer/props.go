package main

// Registration of the checks.

const technique = "abstract interpretation of go/ssa"

var baseAssume = []string{
	"lengths of strings, slices and maps are at most 2^28",
	"a caller-supplied encoder (AppendExprFunc, AppendAny, AppendExpr) appends one field with the tag it is given or fails, and does not touch the builder or the buffer otherwise",
	"go/types and go/ssa represent the program faithfully; the models of the standard library functions called are faithful",
	"the frozen copy of the X Protocol definition files is the protocol",
}

func init() {
	register(&Check{id: "C01", level: "other", technique: technique + ": segment domain for the buffer, symbolic frame parser", needWorld: true, min: 40, assume: baseAssume,
		explain: "Every builder operation is interpreted abstractly from a buffer of arbitrary content, length and capacity and for arbitrary arguments; on every abstract path the bytes handed to the sender are parsed as frames: length field equal to the symbolic length of what follows, message type constant and expected, no unspecified byte.",
		jobs:    withValues(caseJobs(func(bc BCase) bool { return true }))})
	register(&Check{id: "C02", level: "other", technique: technique + ": alias-aware segment domain", needWorld: true, min: 20, assume: baseAssume,
		explain: "Every builder operation is interpreted abstractly from a buffer of arbitrary content, length and capacity; on every abstract path the transmitted bytes start with exactly the earlier content. After Reset (also after a failure) the transmitted bytes are exactly the new operations.",
		jobs:    withValues(caseJobs(func(bc BCase) bool { return true }))})
	register(&Check{id: "C03", level: "other", technique: technique + ": symbolic protobuf parser against the .proto schema", needWorld: true, min: 40, assume: baseAssume,
		explain: "The bytes every builder operation and every encoder of the xproto package produces are parsed symbolically, for all arguments, as the protobuf message their type byte names.",
		jobs:    withEncoders(withValues(caseJobs(func(bc BCase) bool { return true })))})
	register(&Check{id: "C04", level: "other", technique: technique + ": provenance of transmitted bytes", needWorld: true, min: 20, assume: baseAssume,
		explain: "On every abstract path of StmtExecute, Prepare, Execute and Deallocate the decoded message is compared field by field with the symbolic arguments: text bytes and ids by provenance, arguments by identity and order.",
		jobs:    withSome(caseJobs(func(bc BCase) bool { return hasGroup(bc, "sql") }), "SE")})
	register(&Check{id: "C05", level: "other", technique: technique + ": provenance of transmitted bytes", needWorld: true, min: 20, assume: baseAssume,
		explain: "On every abstract path of the CRUD operations the decoded message is compared field by field with the symbolic arguments: table, columns, values, criteria, data model, one assignment per column; ids of InsertRow are stored in the variable the returned expression names, distinct per call.",
		jobs:    withSome(caseJobs(func(bc BCase) bool { return hasGroup(bc, "crud") }), "RIUO")})
}
