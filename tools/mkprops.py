#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in git; rerun after editing the table).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))
LIB="xdr/lib.go"
p("C01","Runtime encoders emit exactly the RFC 4506 bytes",
 "Successfully encoding a value with any of the XDR runtime's primitives (bool, signed/unsigned 32- and 64-bit integers, fixed and variable-length opaque data, strings, and the wrapper types built on them) appends exactly the RFC 4506 encoding of that value to the output: big-endian, a 4-byte length prefix for variable-length data, the data itself, then zero bytes up to the next multiple of four. Every value within its declared bound is encoded without error, and nothing that was already in the output changes.",
 ["inputs"],"all values of each primitive type, all lengths and maximum-length arguments, all prior output contents",
 "The unit tests encode one short string and one 3-byte array and only check that decoding gives it back; a wrong byte order, padding or prefix used symmetrically on both sides would pass.",
 [LIB,"xdr/types.go"],[("XdrBool/XdrS32/XdrU32/XdrS64/XdrU64/XdrVarArray/XdrArray/XdrString",LIB),("xdrRW append path",LIB)],["bytes returned by the writer"],
 [("buf","bytes written so far","xdr.XdrState")])
p("C02","Runtime decoders invert the RFC 4506 encoding",
 "If the unread input starts with the RFC 4506 encoding of a value within the declared bound, decoding with the matching XDR runtime primitive succeeds, stores exactly that value whatever the destination held before, and leaves exactly the bytes after the encoding (including its padding) unread. Any nonzero boolean word decodes as true.",
 ["inputs"],"all values, all trailing bytes, all prior contents of the destination",
 "Tests decode two fixed buffers; other lengths modulo 4, large integers, sign bits and trailing data are never sampled.",
 [LIB,"xdr/types.go"],[("decode branches of the Xdr* primitives",LIB),("xdrR/xdrRW cursor advance",LIB)],["decoded value","unread remainder"],
 [("buf","unread input","xdr.XdrState")])
p("C03","Malformed input to the runtime decoders is an error, never a panic",
 "For every input byte string, however short or malformed, each XDR runtime decoding primitive terminates without panicking and without reading outside the input, and it reports success only if the input really starts with a complete encoding (prefix, data and padding all present). Truncated input always yields an error.",
 ["inputs"],"all byte strings, in particular every truncation and every length prefix up to 2^32-1",
 "Tests truncate two buffers at one offset; the statement ranges over all prefixes and lengths.",
 [LIB],[("not-enough-bytes checks in xdrRW and xdrR",LIB),("size check before slicing",LIB)],["Error()"])
p("C04","Declared maximum lengths are enforced in both directions",
 "Variable-length opaque data, strings and arrays longer than the maximum given for them are rejected with an error both when encoding and when decoding, for the runtime primitives and for every bounded field of the shipped protocol types; data of exactly the maximum length is accepted. Without a declared maximum, a length that does not fit the 32-bit prefix is rejected when encoding rather than truncated.",
 ["inputs"],"all lengths around and beyond each declared maximum, both directions",
 "Tests only use values far below their bound of 100 and never exercise a bounded field of the protocol types.",
 [LIB,"rfc1057/xdr.go","rfc1813/xdr.go"],[("maxlen comparisons in XdrVarArray/XdrString",LIB),("array size checks emitted by the generator","rfc1057/xdr.go"),("EncodingSetSize",LIB)],["Error()"])
p("C05","The first error sticks and freezes the stream",
 "Once an encoding or decoding stream has recorded an error, every later operation on it with any type leaves the error reported and produces no output, consumes no input and does not modify its destination. No operation ever turns a failed stream back into a working one.",
 ["inputs","histories"],"all operations and all sequences of operations applied to a failed stream",
 "Tests never continue using a stream after an error.",
 [LIB,"rfc1057/xdr.go","rfc1813/xdr.go"],[("err != nil guards at the head of each primitive",LIB),("Encoding()/Decoding() mode tests in generated code","rfc1057/xdr.go")],["Error()","written bytes"],
 [("err","recorded failure","xdr.XdrState")])
p("C06","Codecs touch nothing but their destination",
 "Encoding a value never modifies the value or bytes already written; decoding never modifies the input bytes. A decoded opaque field never shares spare capacity with the rest of the input, so appending to it cannot change other decoded or undecoded data.",
 ["inputs"],"all values, inputs and prior buffer contents",
 "No test inspects the source value, the input buffer or slice capacities after a codec ran.",
 [LIB,"rfc1057/xdr.go","rfc1813/xdr.go"],[("three-index slice in xdrR",LIB),("append-only writer",LIB)],["source value","input bytes","cap of decoded slices"])
p("C07","Encode-then-decode returns the original value",
 "For every shipped protocol type and runtime wrapper type and every value within its declared bounds, encoding the value to a buffer succeeds and decoding that buffer into any destination of the type succeeds and yields an equal value (equal up to union arms not selected and nil versus empty slices). Trailing bytes after the encoding do not change the result.",
 ["inputs"],"all in-bounds values of all shipped types, all destinations, all trailing bytes",
 "The fuzz tests cover one type per package and in the normal suite run only three seeds each.",
 ["xdr/helper.go",LIB,"rfc1057/xdr.go","rfc1813/xdr.go"],[("EncodeBuf/DecodeBuf","xdr/helper.go"),("generated codec methods","rfc1813/xdr.go")],["EncodeBuf result","decoded value"])
p("C08","Protocol messages are encoded with the published layout",
 "Every ONC RPC, port mapper, NFSv3 and MOUNTv3 type shipped with the library encodes to the layout of its published definition (RFC 1057 and RFC 1813): fields in the defined order and type, the union arm selected by the discriminant and no other, optional data and lists with their presence flags, fixed opaque data unprefixed. Every in-bounds value encodes without error.",
 ["inputs"],"all values of all shipped protocol types",
 "Round-trip fuzzing of two types cannot notice a layout that is wrong in the same way on both sides, and the other 120-odd types are untested.",
 ["rfc1057/xdr.go","rfc1813/xdr.go","rfc1057/types.go","rfc1813/types.go","rfc1057/prot.x","rfc1813/prot.x"],[("generated Xdr methods","rfc1057/xdr.go"),("generated Xdr methods","rfc1813/xdr.go")],["encoded bytes"])
p("C09","Protocol messages are decoded with the published layout",
 "If the input starts with the published encoding of an in-bounds value of a shipped protocol type, decoding into a variable of that type succeeds, yields that value no matter what the variable held before (in particular absent optional data ends up absent), and leaves exactly the bytes after the encoding unread.",
 ["inputs"],"all values of all shipped protocol types, all trailing bytes, all prior contents of the destination",
 "Tests decode three seeds of two types, always into zero values.",
 ["rfc1057/xdr.go","rfc1813/xdr.go"],[("generated Xdr methods","rfc1057/xdr.go"),("generated Xdr methods","rfc1813/xdr.go")],["decoded value","unread remainder"])
p("C10","Malformed protocol messages are rejected without a panic",
 "For every byte string, decoding it as any shipped protocol type terminates without a panic such as an index, nil or slice error, and succeeds only if the bytes start with a complete in-bounds encoding of that type; otherwise an error is reported.",
 ["inputs"],"all byte strings and all shipped protocol types",
 "The normal suite runs three fuzz seeds for two types.",
 ["rfc1057/xdr.go","rfc1813/xdr.go",LIB],[("generated Xdr methods","rfc1813/xdr.go"),("bounds checks",LIB)],["Error()","panics"])
p("C11","Protocol numbers match the published protocols",
 "Every program, version and procedure number, enumeration value, status code, flag and size limit that the RPC, port mapper, NFSv3 and MOUNTv3 packages export has the value assigned by the published protocol, and every name the protocol definition assigns is exported.",
 ["configurations"],"all constants of both protocol packages",
 "No test mentions a constant's numeric value.",
 ["rfc1057/types.go","rfc1813/types.go","rfc1057/prot.x","rfc1813/prot.x"],[("const declarations","rfc1813/types.go"),("const declarations","rfc1057/types.go")],["exported constants"])
p("C12","Decoding cost is bounded by the size of the input",
 "While decoding any shipped type, the memory allocated for the result is bounded by a constant factor times the number of input bytes actually present, and no loop continues element by element after the stream has failed: a few hostile bytes announcing a huge element count cannot force a huge allocation or a billion iterations.",
 ["inputs"],"all byte strings, in particular count prefixes far larger than the remaining input",
 "No test decodes a variable-length array type with a large announced count.",
 ["rfc1057/xdr.go","rfc1813/xdr.go",LIB,"out.go"],[("array decode loop emitted by the generator","out.go"),("size checks before slicing",LIB)],["allocation size","iterations"])
p("C13","Service wrappers decode, call the right method once, return its result",
 "For every procedure of every generated service, the wrapper decodes the declared argument type from the request; if that fails it returns the error without calling the implementation; otherwise it calls the implementation's method of the same name exactly once with the decoded argument and returns that call's result (an empty result for void) with no error.",
 ["inputs"],"all procedures, all argument bytes, all implementations",
 "No test uses a generated handler wrapper.",
 ["rfc1057/xdr.go","rfc1813/xdr.go"],[("*_handler_wrapper methods","rfc1813/xdr.go")],["calls on the implementation","returned result"])
p("C14","Service registration tables are complete and correctly wired",
 "For every generated service, the registration table contains exactly one entry per procedure of the published program, carrying the published program, version and procedure numbers, and that entry's handler invokes the procedure of that number on the given implementation.",
 ["configurations"],"all procedures of all generated services",
 "No test calls the registration functions.",
 ["rfc1057/xdr.go","rfc1813/xdr.go"],[("*_regs functions","rfc1813/xdr.go")],["returned registrations"])
p("C15","A client call sends one well-formed call record with a fresh id",
 "Each client call writes at most one thing to the connection: a single write holding one complete record (last-fragment bit and exact length) whose body is the RPC version 2 call message with the client's program and version, the given procedure, credential and verifier, a transaction id one greater (modulo 2^32) than that client's previous call, followed by the encoded arguments. If anything cannot be encoded, or the record would be too long for its length field, nothing is written and an error is returned.",
 ["inputs","histories"],"all programs, procedures, credentials, verifiers, arguments and call histories of a client",
 "No test exercises the client.",
 ["rfc1057/client.go"],[("Client.Call request construction","rfc1057/client.go")],["bytes written to the connection"],[("xid","last used transaction id","rfc1057.Client")])
p("C16","A client call succeeds only on its own accepted, successful reply",
 "A client call returns success only after reading from the connection exactly one complete unfragmented record that is a reply with the call's transaction id, accepted with status success, and only if the procedure results decoded without error from the bytes right after the reply header. Any other reply, a short read or an I/O error makes the call return an error and never panic.",
 ["inputs","fault_sequences"],"all reply byte streams and all I/O failures",
 "No test exercises the client.",
 ["rfc1057/client.go"],[("Client.Call reply checks","rfc1057/client.go")],["returned error","result value","bytes consumed"])
p("C17","The server answers each call with one well-formed reply record",
 "Handling one request record writes at most one thing to the connection: a single write holding one complete record (last-fragment bit and exact length) whose body is a reply carrying the request's transaction id, followed by the handler's encoded result only when the status is success. Every decodable call gets that reply unless its result cannot be encoded or is too long for a record; records that are not decodable as an RPC call message get none.",
 ["inputs"],"all request records and all handler results",
 "No test exercises the server.",
 ["rfc1057/server.go"],[("serverConn.handleReqErr","rfc1057/server.go")],["bytes written to the connection"])
p("C18","Requests are dispatched and classified correctly",
 "A call is passed to the handler registered for exactly its program, version and procedure, exactly once, with the argument stream positioned right after the call header; the reply status is success if the handler returns no error and garbage-arguments if it does. With no such handler none is called, and the reply says RPC version mismatch for an RPC version other than 2, program unavailable if nothing is registered for the program, program version mismatch if the program but not the version is registered, and procedure unavailable otherwise, in that precedence.",
 ["inputs","configurations"],"all call headers and all registration tables",
 "No test exercises the server.",
 ["rfc1057/server.go"],[("handler lookup in serverConn.handleReqErr","rfc1057/server.go")],["handler invocations","reply status"],[("handlers","program/version/procedure table","rfc1057.Server")])
p("C19","Registration affects exactly the named procedure",
 "After registering a handler for a program, version and procedure, looking up that triple finds this handler, and every other triple finds what it found before; a later registration of the same triple replaces the earlier one, and a new server has nothing registered. Registering a list has the effect of registering its entries in order.",
 ["inputs","histories"],"all sequences of registrations over all number triples",
 "No test registers a handler.",
 ["rfc1057/server.go"],[("Server.Register/RegisterMany","rfc1057/server.go")],["dispatch results"],[("handlers","nested maps","rfc1057.Server")])
p("C20","The server splits the byte stream into exactly the records sent",
 "The server's connection loop hands to request handling exactly the bodies of the consecutive records of the input stream, each complete and in order, as delimited by their length headers, and returns an error at the end of the stream, on a short record, or on a record without the last-fragment bit; it never handles a partial or shifted record and never panics.",
 ["inputs","fault_sequences"],"all input byte streams and all points of failure",
 "No test exercises the connection loop.",
 ["rfc1057/server.go"],[("Server.Run","rfc1057/server.go")],["request bodies handed to handlers","returned error"])
p("C21","A request buffer is never reused while its request is in progress",
 "The buffer holding a request's bytes belongs to that request alone from the moment it is read until its handler has returned and the reply has been written, and is recycled at most once and only after that; nothing touches it afterwards on behalf of that request. A recycled buffer given out again has exactly the requested length.",
 ["histories","inputs"],"all sequences of requests of all sizes through the buffer pool",
 "No test handles two requests; reuse bugs need a particular request history.",
 ["rfc1057/server.go"],[("getReqBuf/putReqBuf/handleReq","rfc1057/server.go")],["argument data seen by handlers"],[("reqBufPool","recycled buffers","rfc1057/server.go")])
p("C22","Generated codecs implement the interface specification",
 "For every specification built from the supported XDR constructs (all integer types, bool, enum, fixed and variable opaque, string, fixed and variable arrays, optional data, structs and unions including inline and nested ones, typedefs and constants as sizes or labels), the Go code the generator emits compiles, and each emitted codec encodes and decodes exactly the layout RFC 4506 assigns to the definition, enforces its bounds and reports malformed input as an error.",
 ["programs","inputs"],"all specifications in the supported subset; for each emitted codec all values and all input bytes",
 "The generator has no tests; the committed protocol files exercise only part of its cases.",
 ["out.go","xdr.y","scan.go","main.go"],[("goType/goXdr templates","out.go"),("grammar actions","xdr.y")],["emitted Go code"])
p("C23","Generated declarations match the interface specification",
 "For every supported specification, the generator emits each constant, enumeration value, and program, version and procedure number with the value written in the specification, honouring the integer-type options, and emits for each program version a handler interface, wrappers and a registration table that cover exactly its procedures with their argument and result types.",
 ["programs"],"all supported specifications and option settings",
 "The generator has no tests.",
 ["out.go","xdr.y"],[("emitConst/emitEnum/emitProg","out.go")],["emitted declarations"])
p("C24","The specification scanner recognises every token correctly",
 "Every keyword, identifier, number and punctuation mark of the interface language is turned into the token of that meaning and carries its exact text; words that only resemble keywords remain identifiers; the end of the input is reported as such; and a character sequence outside the language is refused rather than skipped or misread.",
 ["inputs"],"all lexemes",
 "The scanner has no tests.",
 ["scan.go"],[("lexer.Lex","scan.go")],["token codes and text"])
p("C25","A failed generator run leaves its output files untouched",
 "If the generator cannot read or parse its input or cannot construct code for it, it exits with a failure status and neither creates nor changes the requested output files, and no temporary file of that run is left behind; it reports success only after all requested outputs were written completely.",
 ["inputs","fault_sequences"],"all input texts and option combinations",
 "The generator has no tests.",
 ["main.go","scan.go"],[("temporary file plus rename-by-rewrite in main","main.go"),("panic on scan/parse errors","scan.go")],["exit status","output files"])
p("C26","Concurrent requests never interfere with each other",
 "Requests of one or several connections that are handled concurrently each see their own data (also in the codecs and in the generated handlers) and produce their own intact reply, in one piece, under every interleaving of their handlers, and registering handlers while requests are served is free of data races.",
 ["schedules"],"all interleavings of request goroutines, the connection loop and registration",
 "Tests never run two requests.",
 ["rfc1057/server.go"],[("goroutine per request in Server.Run","rfc1057/server.go"),("single write per reply","rfc1057/server.go")],["replies"])
p("C27","Every accepted request is eventually answered",
 "On a connection that stays up, every well-formed call whose handler returns a result that can be encoded (or an error) is eventually answered, whatever other requests are in flight on any connection of the server: in particular no handler, however long it runs, and no peer that does not take its replies holds up the requests of another connection, other requests of the same connection keep being handled, and registering handlers does not block.",
 ["schedules","histories"],"all fair schedules and request histories",
 "Tests never run the server.",
 ["rfc1057/server.go"],[("goroutine per request in Server.Run","rfc1057/server.go")],["replies"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
