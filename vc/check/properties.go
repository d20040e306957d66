package check

var rtTrust = []string{trustBE, trustAlias}
var svcTrust = append([]string{"the argument and result codecs satisfy their contract (decided under C08-C10)", "the implementation's methods return (they are the user's code)"}, codecTrust...)
var codecTrust = []string{trustBE, trustAlias, trustStack, trustSpec}

var rpcTrust = append([]string{
	"the connection: io.ReadFull delivers consecutive bytes of the peer's stream or an error, Write is called with the bytes to send, and both return",
	"sync.Pool.Get returns nil or a value put earlier and not yet given out again; Put takes ownership",
	"arguments, results and handlers of the user satisfy the codec contract (opaque Xdrable) and do not keep the stream after returning",
	"slices of 2^31 bytes and more are possible (64-bit platform)",
}, codecTrust...)

// Properties claimed, with the obligations that decide them.
var Properties = []Property{
	{ID: "C01", Suites: []string{"lib"}, Trusted: rtTrust, Sels: []Pick{
		{[]string{"lib:*:encode"}, kinds("E1", "frame", safety)},
		{[]string{"state:MakeWriter:*", "state:XdrState.*:ok-writer", "buf:EncodeBuf"}, nil},
	}},
	{ID: "C02", Suites: []string{"lib"}, Trusted: rtTrust, Sels: []Pick{
		{[]string{"lib:*:decode"}, kinds("D1", safety)},
		{[]string{"state:MakeReader:*", "state:XdrState.*:ok-reader", "buf:DecodeBuf"}, nil},
	}},
	{ID: "C03", Suites: []string{"lib"}, Trusted: rtTrust, Sels: []Pick{
		{[]string{"lib:*:decode"}, kinds("D2", safety)},
		{[]string{"state:MakeReader:*", "state:XdrState.Error:*", "state:XdrState.SetError:*", "buf:DecodeBuf"}, nil},
	}},
	{ID: "C04", Suites: []string{"lib", "codec"}, Trusted: codecTrust, Sels: []Pick{
		{[]string{"lib:XdrVarArray:encode", "lib:XdrString:encode"}, kinds("E1", "E2", safety)},
		{[]string{"lib:XdrVarArray:decode", "lib:XdrString:decode"}, kinds("D1", "D2", safety)},
		{[]string{"state:XdrState.EncodingSetSize:*"}, nil},
		{[]string{"codec:*:encode"}, kinds("E1", "E2", safety)},
		{[]string{"codec:*:decode"}, kinds("D1", "D2", safety)},
	}},
	{ID: "C05", Suites: []string{"lib", "codec"}, Trusted: codecTrust, Sels: []Pick{
		{[]string{"lib:*:sticky-*", "state:XdrState.*:no-*"}, nil},
		{[]string{"codec:*:sticky"}, nil},
	}},
	{ID: "C06", Suites: []string{"lib", "codec"}, Trusted: codecTrust, Sels: []Pick{
		{[]string{"lib:*:encode", "lib:*:decode", "codec:*:encode", "codec:*:decode"}, kinds("frame", "alias")},
		{[]string{"state:*", "buf:*"}, kinds("frame")},
	}},
	{ID: "C07", Suites: []string{"lib", "codec"}, Trusted: append([]string{"two element sequences of equal length and equal elements are equal"}, codecTrust...), Sels: []Pick{
		{[]string{"lemma:roundtrip*"}, nil},
		{[]string{"lib:*:encode", "codec:*:encode"}, kinds("E1", safety)},
		{[]string{"lib:*:decode", "codec:*:decode"}, kinds("D1", safety)},
		{[]string{"state:MakeWriter:*", "state:XdrState.*:ok-writer", "state:MakeReader:*", "state:XdrState.*:ok-reader", "buf:*"}, nil},
	}},
	{ID: "C08", Suites: []string{"lib", "codec"}, Trusted: codecTrust, Sels: []Pick{
		{[]string{"lib:*:encode", "codec:*:encode"}, kinds("E1", safety)},
		{[]string{"state:MakeWriter:*", "state:XdrState.*:ok-writer", "buf:EncodeBuf"}, nil},
	}},
	{ID: "C09", Suites: []string{"lib", "codec"}, Trusted: codecTrust, Sels: []Pick{
		{[]string{"lemma:size:*", "lemma:roundtrip-elems:*"}, nil},
		{[]string{"lib:*:decode", "codec:*:decode"}, kinds("D1", safety)},
		{[]string{"state:MakeReader:*", "state:XdrState.*:ok-reader", "buf:DecodeBuf"}, nil},
	}},
	{ID: "C10", Suites: []string{"lib", "codec"}, Trusted: codecTrust, Sels: []Pick{
		{[]string{"lemma:size:*", "lemma:roundtrip-elems:*"}, nil},
		{[]string{"lib:*:decode", "codec:*:decode"}, kinds("D2", safety)},
		{[]string{"state:MakeReader:*", "state:XdrState.*:ok-reader", "state:XdrState.Error:*", "state:XdrState.SetError:*", "buf:DecodeBuf"}, nil},
	}},
	{ID: "C11", Trusted: []string{trustSpec}, Sels: []Pick{
		{[]string{"const:*"}, nil},
	}},
	{ID: "C12", Suites: []string{"lib", "codec"}, Trusted: codecTrust, Sels: []Pick{
		{[]string{"lemma:size:*", "lemma:roundtrip-elems:*"}, nil},
		{[]string{"lib:*:decode", "codec:*:decode"}, kinds("alloc", "loop", safety)},
		{[]string{"state:XdrState.Error:*", "state:XdrState.Decoding:*"}, nil},
	}},
	{ID: "C13", Suites: []string{"svc"}, Trusted: svcTrust, Sels: []Pick{
		{[]string{"svc:*:[A-Z]*"}, kinds("wrapper", "dispatch", "share", safety)},
	}},
	{ID: "C14", Suites: []string{"svc"}, Trusted: svcTrust, Sels: []Pick{
		{[]string{"svc:*:table"}, nil},
		{[]string{"svc:*:[A-Z]*"}, kinds("dispatch")},
	}},
	{ID: "C15", Suites: []string{"client", "bigrecord"}, Trusted: rpcTrust, Sels: []Pick{
		{[]string{"lemma:size:rfc1057"}, nil},
		{[]string{"rpc:call"}, kinds("request", safety)},
		{[]string{"codec:rfc1057.*:encode"}, kinds("E1", "E2", safety)},
		{[]string{"state:MakeWriter:*", "state:XdrState.*:ok-writer"}, nil},
	}},
	{ID: "C16", Suites: []string{"client"}, Trusted: rpcTrust, Sels: []Pick{
		{[]string{"lemma:size:rfc1057"}, nil},
		{[]string{"rpc:call"}, kinds("reply", safety)},
		{[]string{"codec:rfc1057.*:decode"}, kinds("D1", "D2", safety)},
		{[]string{"state:MakeReader:*", "state:XdrState.*:ok-reader"}, nil},
	}},
	{ID: "C17", Suites: []string{"server", "bigrecord"}, Trusted: rpcTrust, Sels: []Pick{
		{[]string{"lemma:size:rfc1057"}, nil},
		{[]string{"rpc:handle"}, kinds("reply", safety)},
		{[]string{"codec:rfc1057.*:decode"}, kinds("D1", "D2", safety)},
		{[]string{"codec:rfc1057.*:encode"}, kinds("E1", "E2", safety)},
		{[]string{"state:MakeWriter:*", "state:XdrState.*:ok-writer", "state:MakeReader:*"}, nil},
	}},
	{ID: "C18", Suites: []string{"server"}, Trusted: rpcTrust, Sels: []Pick{
		{[]string{"lemma:size:rfc1057"}, nil},
		{[]string{"rpc:handle"}, kinds("dispatch", "lookup", safety)},
		{[]string{"codec:rfc1057.*:decode"}, kinds("D1", "D2", safety)},
	}},
	{ID: "C19", Suites: []string{"server"}, Trusted: rpcTrust, Sels: []Pick{
		{[]string{"rpc:new", "rpc:register", "rpc:registermany"}, nil},
		{[]string{"lemma:size:rfc1057"}, nil},
		{[]string{"rpc:handle"}, kinds("lookup", safety)},
		{[]string{"codec:rfc1057.*:decode"}, kinds("D1", "D2", safety)},
	}},
	{ID: "C20", Suites: []string{"server"}, Trusted: rpcTrust, Sels: []Pick{
		{[]string{"rpc:run"}, kinds("records", safety)},
	}},
	{ID: "C21", Suites: []string{"server"}, Trusted: rpcTrust, Sels: []Pick{
		{[]string{"rpc:run", "rpc:handle"}, kinds("own", safety)},
	}},
	{ID: "C26", Suites: []string{"race"}, Trusted: append([]string{trustConc}, rpcTrust...), Sels: []Pick{
		{[]string{"rpc:conc"}, kinds("race", safety)},
		{[]string{"rpc:run", "rpc:handle"}, kinds("own", safety)},
		{[]string{"lib:*", "state:*", "buf:*", "codec:*", "svc:*:[A-Z]*"}, kinds("share")},
	}},
	{ID: "C27", Suites: []string{"progress", "server"}, Trusted: append([]string{trustFair}, rpcTrust...), Sels: []Pick{
		{[]string{"lemma:size:rfc1057"}, nil},
		{[]string{"rpc:conc"}, kinds("progress", safety)},
		{[]string{"rpc:run"}, kinds("records", safety)},
		{[]string{"rpc:handle"}, kinds("reply", safety)},
		{[]string{"codec:rfc1057.*:decode", "codec:rfc1057.*:encode"}, kinds(safety)},
	}},
	{ID: "C22", Gen: true, Level: "translation_validation", Suites: []string{"codec"}, Trusted: codecTrust, Sels: []Pick{
		{[]string{"codec:*:encode"}, kinds("E1", "E2", "frame", "share", safety)},
		{[]string{"codec:*:decode"}, kinds("D1", "D2", "frame", "share", safety)},
		{[]string{"codec:*:sticky"}, nil},
	}},
	{ID: "C23", Gen: true, Level: "translation_validation", Suites: []string{"svc"}, Trusted: svcTrust, Sels: []Pick{
		{[]string{"decl:*"}, nil},
		{[]string{"svc:*"}, nil},
	}},
	{ID: "C24", Main: true, Suites: []string{"lex"}, Trusted: []string{trustScan}, Sels: []Pick{
		{[]string{"scan:*"}, nil},
		{[]string{"main:run"}, kinds("scan-init")},
	}},
	{ID: "C25", Main: true, Suites: []string{"run"}, Trusted: []string{trustFiles, trustYacc}, Sels: []Pick{
		{[]string{"main:*", "scan:error"}, nil},
	}},
}

const (
	trustScan  = "go/scanner.Scanner: Scan delivers the lexemes of the input in order with their text, skips white space and comments, inserts semicolons with text \"\\n\" at line ends, and counts malformed lexemes in ErrorCount"
	trustConc  = "the Go memory model's guarantee for race-free programs; sync.Mutex, sync.RWMutex and sync.Pool (assumed contracts); Read and Write of one connection may be called at the same time, each Write is delivered in one piece; handlers do not share memory with each other (they are the user's code)"
	trustFair  = "every goroutine that can run eventually runs; Write on a connection that stays up returns; sync.Pool does not block; loops with a bound of their own end"
	trustFiles = "os and ioutil file operations, go/format.Source, fmt.Fprintf (one Write with the formatted text), flag; a name denotes one file (no aliasing of different names by links); os.Remove of a file of this run succeeds"
	trustYacc  = "the parser goyacc makes from xdr.y: returns 0 exactly when the token stream is a specification; on a syntax error it calls the lexer's Error"
)
