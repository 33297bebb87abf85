#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
GO=["templates/goshared/","templates/go/","templates/shared/context.go"]
WHY="The harness cases pair one or two hand-picked values with one fixed schema per rule; the guarantee is over every legal rule constant and every value, so most boundaries, rule combinations and positions (wrapper, item, map key or value, oneof) are never executed."
p("C01","Go: numeric rules accept exactly the values the rules allow",
 "For every numeric field type (float, double and the ten integer types) and every legal combination of const, lt, lte, gt, gte, in, not_in and ignore_empty, the generated Go Validate returns nil exactly when the value satisfies the rules, including exact boundaries, extreme values, and reversed ranges (a lower bound above the upper bound means 'outside'). The same holds whether the field is singular, a wrapper message, a repeated item, a map key or value, or a oneof member. NaN against range bounds is unspecified.",
 ["inputs","programs"],"every rule combination the plugin accepts x every value of the type x every position the rule can take",WHY,
 ["templates/goshared/ltgt.go","templates/goshared/in.go","templates/goshared/const.go","templates/goshared/num.go","templates/goshared/wrapper.go","templates/goshared/register.go","templates/goshared/msg.go"],
 [("ltgt/const/in/num templates","templates/goshared/{ltgt,const,in,num}.go"),("literal rendering","templates/goshared/register.go: lit, inKey, inType")],
 observe=["return value of the generated Validate/ValidateAll"])
p("C02","Go: string and bytes length, content and set rules are exact",
 "The generated Go Validate accepts a string or bytes value exactly when it satisfies every const, len/min_len/max_len (Unicode code points for strings, bytes for bytes fields), len_bytes/min_bytes/max_bytes, prefix, suffix, contains, not_contains, in, not_in and pattern (RE2 search) rule of the field. ignore_empty exempts only the empty value, and rule text of any characters (quotes, escapes, control characters, non-ASCII) is taken literally.",
 ["inputs","programs"],"every legal rule combination x every string (including invalid UTF-8 through proto2) or byte sequence x every position",WHY,
 ["templates/goshared/string.go","templates/goshared/bytes.go","templates/goshared/register.go","templates/goshared/msg.go"],
 [("string/bytes templates","templates/goshared/{string,bytes}.go"),("quoting of rule text","templates/goshared/register.go: lit, byteStr, inKey")],observe=["return value of generated Validate/ValidateAll"])
p("C03","Go: well-known string and bytes formats match their definitions",
 "For the email, hostname, address, ip, ipv4, ipv6, uri, uri_ref, uuid and well_known_regex (HTTP header name/value, strict and non-strict) rules on strings and the ip, ipv4 and ipv6 rules on bytes, the generated Go code accepts what the documented format definition (RFC 5322/1034/3986/4122/7230, textual or binary IP) requires and rejects what it excludes. Length and label limits (253/63 for hostnames, 64/254 for email) are exact, hostnames are ASCII only, and strict header rules are the default.",
 ["inputs"],"every string or byte sequence, for each format and position",
 "About three strings per format are tested; limits, separators at the ends, Unicode look-alikes and header injection characters are not.",
 ["templates/goshared/known.go","templates/goshared/string.go","templates/goshared/bytes.go","module/checker.go","templates/shared/well_known.go"],
 [("hostname/email/uuid helpers","templates/goshared/known.go"),("header regexes","module/checker.go: regex_map, checkWellKnownRegex"),("helper emission","templates/shared/well_known.go: Needs, FileNeeds")],observe=["return value of generated Validate"])
p("C04","Go: repeated and map rules are exact and reach every element",
 "For repeated and map fields the generated Go code enforces min/max item and pair counts, unique and no_sparse exactly, applies the items, keys and values rules to every element (and recursion to every element message), and ignore_empty exempts only an empty container. Each offending element is reported with its own index or key, and conforming containers are accepted.",
 ["inputs","programs"],"every legal container rule combination x every list or map content, size and order",WHY,
 ["templates/goshared/repeated.go","templates/goshared/map.go","templates/shared/context.go","templates/goshared/msg.go"],
 [("repeated/map templates","templates/goshared/{repeated,map}.go"),("element rule contexts","templates/shared/context.go: Key, Elem, resolveRules")],observe=["return value of generated Validate/ValidateAll"])
p("C05","Go: presence, recursion, oneof, enum and bool rules are exact",
 "The generated Go code validates embedded messages at every nesting depth and position unless skip, disabled or ignored says otherwise, and reports required messages, wrappers and oneofs exactly when they are unset. Only the member that is set in a oneof is validated; enum const, in, not_in and defined_only and bool const are exact for every numeric value, including undefined ones; disabled and ignored never suppress validation elsewhere.",
 ["inputs","programs"],"every message graph (nesting, recursion, imports, enums from other packages) x every field assignment",WHY,
 ["templates/go/message.go","templates/go/required.go","templates/goshared/msg.go","templates/goshared/enum.go","templates/goshared/wrapper.go","templates/shared/disabled.go","templates/shared/context.go"],
 [("message/required templates","templates/go/{message,required}.go"),("oneof switch","templates/goshared/msg.go"),("enum rules","templates/goshared/enum.go")],observe=["return value of generated Validate/ValidateAll"])
p("C06","Go: Duration, Timestamp and Any rules are exact",
 "The generated Go code accepts a Duration, Timestamp or Any exactly when it satisfies its required, const, lt/lte/gt/gte (including reversed ranges), in, not_in, lt_now, gt_now and within rules, compared at nanosecond precision over the whole valid range. A malformed Duration or Timestamp with comparison rules is reported rather than silently accepted, an unset field violates only required, and now-relative rules use the time of the call.",
 ["inputs","schedules"],"every rule combination x every seconds/nanos pair x every instant of the clock at the call",
 "Tests cover a few constants and use the real clock, so exact boundaries of now/within, nanosecond carries, extreme and malformed values are out of reach.",
 ["templates/goshared/duration.go","templates/goshared/timestamp.go","templates/go/duration.go","templates/go/timestamp.go","templates/goshared/any.go","templates/goshared/register.go"],
 [("duration/timestamp comparison templates","templates/goshared/{duration,timestamp}.go"),("literals","templates/goshared/register.go: durLit, tsLit, durGt, tsGt")],observe=["return value of generated Validate/ValidateAll under a controlled clock"])
p("C07","Go: Validate and ValidateAll agree and report errors faithfully",
 "ValidateAll returns nil exactly when Validate does, and otherwise lists every violation exactly once, at every depth, through AllErrors; Validate returns one of them (the first listed, unless map iteration is involved). Every error's ErrorName, Field (with the element index or key), Reason (with the rule's own constants), Cause (the nested message's error) and Error() text identify the violated rule, the field and the message, and Key() is true exactly for map key violations.",
 ["inputs","programs"],"every schema x every message with any number of simultaneous violations at any depth",
 "Tests count errors for single-violation messages; they never look at fields, reasons, causes or nested lists.",
 ["templates/goshared/msg.go","templates/goshared/register.go","templates/shared/context.go","templates/go/message.go"],
 [("error rendering","templates/goshared/register.go: errIdxCause"),("multi error collection","templates/goshared/msg.go"),("key context","templates/shared/context.go: Key")],observe=["error values' accessors"])
p("C08","Go: validation is total, pure and safe for concurrent use",
 "Generated Go Validate and ValidateAll never panic (nil receivers, typed-nil oneof members, nil list or map elements, invalid UTF-8, unknown enum values, deep nesting included), never modify the message, and return the same result when repeated on the same message. Any number of goroutines may validate the same or different messages concurrently without data races and with the results a sequential run gives.",
 ["inputs","schedules"],"every message value including ones only reachable through the Go API x every interleaving of concurrent validators",
 "The harness validates one decoded message per process, sequentially; aliasing, nil elements and concurrency never occur.",
 ["templates/goshared/msg.go","templates/goshared/repeated.go","templates/goshared/map.go","templates/go/message.go"],
 [("nil receiver guard, local error slice","templates/goshared/msg.go"),("package-level lookup tables and regexps written only at init","templates/goshared/msg.go")],
 observe=["panics","serialised message before/after","race detector reports"])
p("C09","C++: generated validators give the specified verdict",
 "For every rule the C++ generator implements, the generated C++ Validate returns true exactly when the message satisfies its rules (the same specification as Go), and a false return names the offending message and field. Rules it does not implement raise UnimplementedException or fail generation; they are never silently treated as satisfied.",
 ["inputs","programs"],"every accepted schema x every message value",WHY,
 ["templates/cc/","validate/validate.h","templates/shared/context.go"],
 [("cc templates","templates/cc/*.go"),("runtime helpers","validate/validate.h"),("literals","templates/cc/register.go: lit, inKey, durLit, tsLit")],observe=["return value, message and exception of the generated Validate"])
p("C10","C++: generated validators are memory-safe, UB-free and thread-safe",
 "No message content (empty, huge, deeply nested, embedded NULs, truncated or invalid UTF-8, extreme numbers, malformed durations and timestamps) makes generated C++ validators or the runtime header read or write out of bounds, invoke undefined behaviour or fail to terminate. Concurrent validation of any mix of message types from many threads, first use included, is free of data races and returns the sequential results.",
 ["inputs","schedules"],"every message content x every interleaving of validating threads",
 "Tests run one value per process, single threaded and without sanitizers.",
 ["validate/validate.h","templates/cc/"],[("UTF-8 counting, hostname, IP and prefix/suffix helpers","validate/validate.h"),("validator registry","validate/validate.h: BaseValidator/Validator")],
 state=[("validator registry","type_index -> validator for embedded messages","validate/validate.h: BaseValidator::validators()")],observe=["ASan/UBSan/TSan reports","results per thread"])
p("C11","The plugin rejects contradictory or ill-typed rules and nothing else",
 "Code generation fails with an error naming the offending message and field, and produces no output, whenever a field's rules do not fit the field's type, contradict one another (const with other numeric rules, in with not_in, duplicate or equal bounds, min above max, impossible lengths, in outside defined_only, mixed now/absolute bounds) or contain an unusable pattern or constant. Every consistent and well-typed rule set is accepted; rules inside items, keys, values, nested messages and oneofs are checked the same way, and messages marked disabled are not checked.",
 ["programs"],"every combination of rules on every field type at every position, in every language",
 "The checker has no tests at all: the harness only ever compiles legal schemas.",
 ["module/checker.go","module/validate.go"],[("CheckRules and the per-type checks","module/checker.go"),("MustType","module/checker.go")],observe=["plugin exit status, error text and response files"])
p("C12","Plugin output is a deterministic function of the schema",
 "The same schema and parameters always produce byte-identical files, in any number of runs, and the code generated for a file does not depend on which other files are generated in the same invocation or on their order. Unrelated additions to a schema elsewhere (comments, other files, other messages) leave the code generated for a message unchanged.",
 ["programs","configurations","histories"],"every set of files, order, grouping into invocations, and repetition",
 "Tests generate once per build and never compare outputs.",
 ["module/validate.go","module/checker.go","templates/shared/context.go","templates/goshared/register.go"],
 [("target loop","module/validate.go: Execute"),("import collection","templates/goshared/register.go: externalEnums, enumPackages")],observe=["CodeGeneratorResponse bytes"])
p("C13","Every accepted schema yields code that compiles and links",
 "Whenever the plugin accepts a schema, the generated Go, C++ and Java source is syntactically valid and compiles against the protobuf-generated code of the same file, for every legal naming, nesting, import and package layout and every legal rule constant. The generator never crashes on a schema that protoc accepts.",
 ["programs"],"every schema protoc and the checker accept",
 "Only the repository's own sample schemas are compiled; names, nesting, cross-package enums, literals with unusual characters and extreme constants are not explored.",
 ["templates/goshared/register.go","templates/goshared/msg.go","templates/go/file.go","templates/cc/register.go","templates/cc/file.go","templates/shared/well_known.go","templates/java/register.go"],
 [("literals and names","templates/{goshared,cc,java}/register.go"),("lookup tables","templates/goshared/msg.go"),("imports","templates/go/file.go, templates/cc/file.go")],observe=["compiler exit status on generated code"])
p("C14","Output files, names and parameters follow the documented layout",
 "For each target file and lang the plugin emits exactly the documented files at the path protoc's own generator for that language would use (Go: .pb.validate.go honouring paths and module; C++: .pb.validate.h and .cc; Java: one Validator per file or per message with java_multiple_files, nothing for files that do not use the rules). The module prefix is stripped only as a leading prefix, and a missing or unknown lang is an error without output.",
 ["configurations","programs"],"every combination of parameters, packages, directories and file options",
 "The build uses one parameter set per language and one directory layout.",
 ["module/validate.go","templates/pkg.go","templates/cc/register.go","templates/java/register.go"],
 [("output path selection","module/validate.go: Execute; templates/pkg.go: FilePathFor"),("Java and C++ paths","templates/java/register.go: JavaFilePath; templates/cc/register.go: CcFilePath")],observe=["file names in the CodeGeneratorResponse"])
p("C15","Java: generated validators and runtime checks give the specified verdict",
 "For every rule Java supports, the generated Java validator with the stub runtime accepts a message exactly when it satisfies its rules (the same specification as Go, over the full range of each type), and otherwise throws a ValidationException that names the field. Unsupported rules throw UnimplementedException instead of passing.",
 ["inputs","programs"],"every accepted schema x every message value",
 "The Java part is not built here at all, and its unit tests sample single values per helper.",
 ["templates/java/","java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/"],
 [("Java templates","templates/java/*.go"),("runtime validations","java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/*Validation.java")],observe=["exception or normal return of assertValid"])
p("C16","Java: validator lookup and gRPC interceptors never let bad messages through",
 "The validator indexes return for every message type its own generated validator (consulting the fallback when they have none) and always the same one, under any concurrent use. The client and server gRPC interceptors deliver a message to the next stage only if its validator accepted it, report a rejected one exactly once as INVALID_ARGUMENT, and after a rejection the server interceptor delivers no further message or half-close.",
 ["histories","schedules","inputs"],"every sequence of call events and message validities x every interleaving of concurrent lookups",
 "Unit tests cover one message per call and one lookup at a time.",
 ["java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/","java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/"],
 [("ReflectiveValidatorIndex/ExplicitValidatorIndex","java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/"),("interceptors","java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/")],observe=["events seen by a recording ServerCall/ClientCall"])
p("C17","Python: the runtime validator gives the specified verdict",
 "For every rule Python supports, validate(msg) returns normally exactly when the message satisfies its rules (the same specification as Go) and otherwise raises ValidationFailed. Validation leaves the message unchanged, and its outcome does not depend on which messages were validated earlier, or are validated by other threads, in the process.",
 ["inputs","programs","histories"],"every schema x every message value x every order of earlier and concurrent validations",
 "The Python part is not runnable in this build, and its harness checks single values.",
 ["python/protoc_gen_validate/validator.py"],[("templates and caching","python/protoc_gen_validate/validator.py")],
 state=[("compiled validator cache","per message type generated function","python/protoc_gen_validate/validator.py: ValidatingMessage, lru_cache")],observe=["return or exception of validate()"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        assert x["statement"].count(". ")<=2,(x["id"])
        f.write(json.dumps(x)+"\n")
