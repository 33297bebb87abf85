From 144af6d6d9926af0154cb82bb8939e2ce1fc9f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 01/72] fix: strip the pointer from proto2 scalar and enum
 in/not_in lookup types

---
 templates/goshared/register.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index e532d08..cbe2c24 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -224,10 +224,11 @@ func (fns goSharedFuncs) inType(f pgs.Field, x interface{}) string {
 		if f.Type().IsRepeated() {
 			return strings.TrimLeft(fns.Type(f).String(), "[]")
 		} else {
-			return fns.Type(f).String()
+			return fns.Type(f).Value().String()
 		}
 	default:
-		return fns.Type(f).String()
+		// Use Value() to strip any potential pointer type.
+		return fns.Type(f).Value().String()
 	}
 }
 
-- 
2.43.0


From 54bd673cd399d1e16c4b820f50f29edfc85b3c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 02/72] fix: emit two hex digits for every byte in generated Go
 byte strings

A byte below 0x10 produced `\x0`, which is not a valid Go escape, so a bytes
in/not_in rule holding one generated code that does not compile.
---
 templates/goshared/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index cbe2c24..8ab763d 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -199,7 +199,7 @@ func (fns goSharedFuncs) isBytes(f interface {
 func (fns goSharedFuncs) byteStr(x []byte) string {
 	elms := make([]string, len(x))
 	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+		elms[i] = fmt.Sprintf(`\x%02X`, b)
 	}
 
 	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
-- 
2.43.0


From f96ea9522ebf2823d111dc55397c399ae38f353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 03/72] fix: reject non-ASCII letters whose lower case is ASCII
 in Go hostnames

strings.ToLower maps U+212A (Kelvin sign) to 'k', so hostname, address and
email rules accepted names holding it.
---
 templates/goshared/known.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index ad32cfc..afd3aaa 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -2,7 +2,7 @@ package goshared
 
 const hostTpl = `
 	func (m {{ (msgTyp .).Pointer }}) _validateHostname(host string) error {
-		s := strings.ToLower(strings.TrimSuffix(host, "."))
+		s := strings.TrimSuffix(host, ".")
 
 		if len(host) > 253 {
 			return errors.New("hostname cannot exceed 253 characters")
@@ -22,7 +22,7 @@ const hostTpl = `
 			}
 
 			for _, r := range part {
-				if (r < 'a' || r > 'z') && (r < '0' || r > '9') && r != '-' {
+				if (r < 'a' || r > 'z') && (r < 'A' || r > 'Z') && (r < '0' || r > '9') && r != '-' {
 					return fmt.Errorf("hostname parts can only contain alphanumeric characters or hyphens, got %q", string(r))
 				}
 			}
-- 
2.43.0


From ae822abb48027880a2eb95e97cde3397f5b513bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 04/72] fix: escape the hyphen in the HTTP_HEADER_NAME pattern

`+-.` is a range that also holds ',', which RFC 7230 does not allow in a
header name.
---
 module/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/checker.go b/module/checker.go
index d8beabe..cad70d7 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -14,7 +14,7 @@ import (
 )
 
 var unknown = ""
-var httpHeaderName = "^:?[0-9a-zA-Z!#$%&'*+-.^_|~\x60]+$"
+var httpHeaderName = "^:?[0-9a-zA-Z!#$%&'*+\\-.^_|~\x60]+$"
 var httpHeaderValue = "^[^\u0000-\u0008\u000A-\u001F\u007F]*$"
 var headerString = "^[^\u0000\u000A\u000D]*$" // For non-strict validation.
 
-- 
2.43.0


From f55ee5b870133e6f56defe0d2151d43092f8b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 05/72] fix: mark violations of map key rules as key violations

---
 templates/shared/context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/shared/context.go b/templates/shared/context.go
index a374135..dd8b985 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -54,6 +54,7 @@ func (ctx RuleContext) Key(name, idx string) (out RuleContext, err error) {
 	out.Field = ctx.Field
 	out.AccessorOverride = name
 	out.Index = idx
+	out.OnKey = true
 
 	out.Typ, out.Rules, out.MessageRules, _ = resolveRules(ctx.Field.Type().Key(), rules.GetKeys())
 
-- 
2.43.0


From dfefa2032d44d3d496b121855933a1e5a8e8d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 06/72] fix: consider nested messages when deciding which
 well-known validators a file needs

A uuid rule that only a nested message uses generated a reference to a
pattern variable that was never declared.
---
 templates/shared/well_known.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 87f5e98..0747f16 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -14,7 +14,7 @@ const (
 )
 
 func FileNeeds(f pgs.File, wk WellKnown) bool {
-	for _, msg := range f.Messages() {
+	for _, msg := range f.AllMessages() {
 		needed := Needs(msg, wk)
 		if needed {
 			return true
-- 
2.43.0


From 0d0f38fd3324d17c7b4dfb12cf79d789b07c1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 07/72] fix: key the in/not_in lookups of BytesValue fields by
 string

[]byte is not a valid map key type, so the generated code did not compile.
---
 templates/goshared/register.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 8ab763d..163a934 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -217,6 +217,8 @@ func (fns goSharedFuncs) inType(f pgs.Field, x interface{}) string {
 		switch x.(type) {
 		case []*durationpb.Duration:
 			return "time.Duration"
+		case [][]byte:
+			return "string"
 		default:
 			return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
 		}
@@ -241,6 +243,8 @@ func (fns goSharedFuncs) inKey(f pgs.Field, x interface{}) string {
 		case *durationpb.Duration:
 			dur := x.AsDuration()
 			return fns.lit(int64(dur))
+		case []byte:
+			return fns.byteStr(x)
 		default:
 			return fns.lit(x)
 		}
-- 
2.43.0


From 8bc57f2f3900fe3ddc2c45421943ce674949bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 08/72] fix: enforce a bytes const rule whose value is empty

Templates treated the empty byte slice as an absent rule, so the field
accepted every value.
---
 templates/cc/const.go          |  2 +-
 templates/goshared/bytes.go    |  2 +-
 templates/java/bytes.go        |  4 ++--
 templates/shared/functions.go  |  1 +
 templates/shared/reflection.go | 13 +++++++++++++
 5 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/templates/cc/const.go b/templates/cc/const.go
index 2d6af9e..6fe87e9 100644
--- a/templates/cc/const.go
+++ b/templates/cc/const.go
@@ -1,7 +1,7 @@
 package cc
 
 const constTpl = `{{ $r := .Rules }}
-	{{ if $r.Const }}
+	{{ if isset $r.Const }}
 		if ({{ accessor . }} != {{ lit $r.GetConst }}) {
 			{{ err . "value must equal " (lit $r.GetConst) }}
 		}
diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index e9caa66..c431f00 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -81,7 +81,7 @@ const bytesTpl = `
 		}
 	{{ end }}
 
-	{{ if $r.Const }}
+	{{ if isset $r.Const }}
 		if !bytes.Equal({{ accessor . }}, {{ lit $r.Const }}) {
 			err := {{ err . "value must equal " $r.Const }}
 			if !all { return err }
diff --git a/templates/java/bytes.go b/templates/java/bytes.go
index 52f9f4c..49f37e4 100644
--- a/templates/java/bytes.go
+++ b/templates/java/bytes.go
@@ -1,7 +1,7 @@
 package java
 
 const bytesConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
-{{- if $r.Const }}
+{{- if isset $r.Const }}
 		private final com.google.protobuf.ByteString {{ constantName . "Const" }} = com.google.protobuf.ByteString.copyFrom({{ byteArrayLit $r.GetConst }});
 {{- end -}}
 {{- if $r.In }}
@@ -35,7 +35,7 @@ const bytesTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetIgnoreEmpty }}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
-{{- if $r.Const }}
+{{- if isset $r.Const }}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if $r.Len }}
diff --git a/templates/shared/functions.go b/templates/shared/functions.go
index 2bf111a..36e80b2 100644
--- a/templates/shared/functions.go
+++ b/templates/shared/functions.go
@@ -14,6 +14,7 @@ func RegisterFunctions(tpl *template.Template, params pgs.Parameters) {
 		"context":   rulesContext,
 		"render":    Render(tpl),
 		"has":       Has,
+		"isset":     IsSet,
 		"needs":     Needs,
 		"fileneeds": FileNeeds,
 	})
diff --git a/templates/shared/reflection.go b/templates/shared/reflection.go
index 0e1272c..dfea865 100644
--- a/templates/shared/reflection.go
+++ b/templates/shared/reflection.go
@@ -26,3 +26,16 @@ func Has(msg proto.Message, fld string) bool {
 	return val.IsValid() &&
 		val.FieldByName(fld).IsValid()
 }
+
+// IsSet returns true if the provided rule value (an optional scalar or bytes
+// field) is present, even if it is the zero value of its type.
+func IsSet(x interface{}) bool {
+	val := reflect.ValueOf(x)
+
+	switch val.Kind() {
+	case reflect.Ptr, reflect.Slice:
+		return !val.IsNil()
+	default:
+		return val.IsValid()
+	}
+}
-- 
2.43.0


From 682b6534f5ce28e848cd233584c1c579360257f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 09/72] fix: mark the map key as used in generated Go map loops

A map whose value rules render no check that names the key (message.skip,
empty any rules) generated an unused variable.
---
 templates/goshared/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/map.go b/templates/goshared/map.go
index cadf990..1655ac7 100644
--- a/templates/goshared/map.go
+++ b/templates/goshared/map.go
@@ -37,7 +37,7 @@ const mapTpl = `
 
 	{{ if or $r.GetNoSparse (ne (.Elem "" "").Typ "none") (ne (.Key "" "").Typ "none") }}
 		for key, val := range {{ accessor . }} {
-			_ = val
+			_, _ = key, val
 
 			{{ if $r.GetNoSparse }}
 				if val == nil {
-- 
2.43.0


From a10bbb15f1dc011aa12e4588d73d7a8e210ff3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 10/72] fix: strip the pointer from the enum type in proto2
 defined_only checks

A defined_only rule on a proto2 optional enum generated *Enum_name, which
does not compile.
---
 templates/goshared/enum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/enum.go b/templates/goshared/enum.go
index ffd6dc6..eb8f728 100644
--- a/templates/goshared/enum.go
+++ b/templates/goshared/enum.go
@@ -6,7 +6,7 @@ const enumTpl = `
 		{{ template "in" . }}
 
 		{{ if $r.GetDefinedOnly }}
-			if _, ok := {{ (typ $f).Element }}_name[int32({{ accessor . }})]; !ok {
+			if _, ok := {{ (typ $f).Element.Value }}_name[int32({{ accessor . }})]; !ok {
 				err := {{ err . "value must be one of the defined enum values" }}
 				if !all { return err }
 				errors = append(errors, err)
-- 
2.43.0


From 8c37dd68d4fd0faa4ec90c74ff2276d9eac59cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 11/72] fix: report a typed-nil oneof value instead of
 panicking

The accessor of a typed-nil oneof wrapper dereferences it, so Validate
panicked on such a message.
---
 templates/goshared/msg.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index 4e09f77..2db0a77 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -34,9 +34,18 @@ func (m {{ (msgTyp .).Pointer }}) validate(all bool) error {
 		{{ end }}
 
 		{{ range .OneOfs }}
-			switch m.{{ name . }}.(type) {
+			switch v := m.{{ name . }}.(type) {
 				{{ range .Fields }}
 					case {{ oneof . }}:
+						if v == nil {
+							err := {{ errname .Message }}{
+								field: "{{ name .OneOf }}",
+								reason: "oneof value cannot be a typed-nil",
+							}
+							if !all { return err }
+							errors = append(errors, err)
+							break
+						}
 						{{ render (context .) }}
 				{{ end }}
 				{{ if required . }}
-- 
2.43.0


From 75b065eafd06a5ca19b6552edcb231e40e6e2440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 12/72] fix: reject len combined with min_len or max_len on
 bytes

The generated code silently ignored min_len and max_len; strings already
reject the combination.
---
 module/checker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/module/checker.go b/module/checker.go
index cad70d7..f8f14c6 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -231,6 +231,7 @@ func (m *Module) CheckString(r *validate.StringRules) {
 }
 
 func (m *Module) CheckBytes(r *validate.BytesRules) {
+	m.checkLen(r.Len, r.MinLen, r.MaxLen)
 	m.checkMinMax(r.MinLen, r.MaxLen)
 	m.checkIns(len(r.In), len(r.NotIn))
 	m.checkPattern(r.Pattern, len(r.In))
-- 
2.43.0


From 1e15154462da07952347b7a3ad2912a8dc538659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 13/72] fix: reject any, duration and timestamp rules on fields
 of other types

The plugin accepted them and generated code that does not compile or that
ignores the rule.
---
 module/checker.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/module/checker.go b/module/checker.go
index f8f14c6..a188084 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -332,10 +332,12 @@ func (m *Module) CheckMap(ft FieldType, r *validate.MapRules) {
 }
 
 func (m *Module) CheckAny(ft FieldType, r *validate.AnyRules) {
+	m.mustWellKnown(ft, pgs.AnyWKT)
 	m.checkIns(len(r.In), len(r.NotIn))
 }
 
 func (m *Module) CheckDuration(ft FieldType, r *validate.DurationRules) {
+	m.mustWellKnown(ft, pgs.DurationWKT)
 	m.checkNums(
 		len(r.GetIn()),
 		len(r.GetNotIn()),
@@ -357,6 +359,7 @@ func (m *Module) CheckDuration(ft FieldType, r *validate.DurationRules) {
 }
 
 func (m *Module) CheckTimestamp(ft FieldType, r *validate.TimestampRules) {
+	m.mustWellKnown(ft, pgs.TimestampWKT)
 	m.checkNums(0, 0,
 		m.checkTS(r.GetConst()),
 		m.checkTS(r.GetLt()),
@@ -382,6 +385,21 @@ func (m *Module) CheckTimestamp(ft FieldType, r *validate.TimestampRules) {
 		"`within` rule must be positive and non-zero")
 }
 
+func (m *Module) mustWellKnown(ft FieldType, wkt pgs.WellKnownType) {
+	if typ, ok := ft.(Repeatable); ok {
+		m.Assert(!typ.IsRepeated(),
+			"repeated rule should be used for repeated fields")
+	}
+
+	emb := ft.Embed()
+	m.Assert(emb != nil && emb.WellKnownType() == wkt,
+		"expected rules for ",
+		ft.ProtoType().Proto(),
+		" but got ",
+		wkt.Name(),
+	)
+}
+
 func (m *Module) mustFieldType(ft FieldType) pgs.FieldType {
 	typ, ok := ft.(pgs.FieldType)
 	if !ok {
-- 
2.43.0


From 0db96135dc88bfed79da3b4cfd7c66602dde174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 14/72] fix: name the undefined enum value in the defined_only
 error

---
 module/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/checker.go b/module/checker.go
index a188084..2ff5429 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -265,7 +265,7 @@ func (m *Module) CheckEnum(ft FieldType, r *validate.EnumRules) {
 
 		for _, in := range r.In {
 			if _, ok = vals[in]; !ok {
-				m.Failf("undefined `in` value (%d) conflicts with `defined_only` rule")
+				m.Failf("undefined `in` value (%d) conflicts with `defined_only` rule", in)
 			}
 		}
 	}
-- 
2.43.0


From 9cb06b410946ca0553ec44ba80872b0525568f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 15/72] fix: check message rules inside items, keys and values

---
 module/checker.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index 2ff5429..7eef97f 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -55,11 +55,6 @@ func (m *Module) CheckRules(msg pgs.Message) {
 		_, err = f.Extension(validate.E_Rules, &rules)
 		m.CheckErr(err, "unable to read validation rules from field")
 
-		if rules.GetMessage() != nil {
-			m.MustType(f.Type(), pgs.MessageT, pgs.UnknownWKT)
-			m.CheckMessage(f, &rules)
-		}
-
 		m.CheckFieldRules(f.Type(), &rules)
 
 		m.Pop()
@@ -71,6 +66,11 @@ func (m *Module) CheckFieldRules(typ FieldType, rules *validate.FieldRules) {
 		return
 	}
 
+	if rules.GetMessage() != nil {
+		m.MustType(typ, pgs.MessageT, pgs.UnknownWKT)
+		m.CheckMessage(typ, rules)
+	}
+
 	switch r := rules.Type.(type) {
 	case *validate.FieldRules_Float:
 		m.MustType(typ, pgs.FloatT, pgs.FloatValueWKT)
@@ -271,9 +271,9 @@ func (m *Module) CheckEnum(ft FieldType, r *validate.EnumRules) {
 	}
 }
 
-func (m *Module) CheckMessage(f pgs.Field, rules *validate.FieldRules) {
-	m.Assert(f.Type().IsEmbed(), "field is not embedded but got message rules")
-	emb := f.Type().Embed()
+func (m *Module) CheckMessage(typ FieldType, rules *validate.FieldRules) {
+	emb := typ.Embed()
+	m.Assert(emb != nil, "field is not embedded but got message rules")
 	if emb != nil && emb.IsWellKnown() {
 		switch emb.WellKnownType() {
 		case pgs.AnyWKT:
-- 
2.43.0


From dfc7e90d6b24003ff340e804efb5027cfcf97d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 16/72] fix: strip the module parameter only as a leading path
 prefix

---
 module/validate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/module/validate.go b/module/validate.go
index 1ca8510..4f73ffe 100644
--- a/module/validate.go
+++ b/module/validate.go
@@ -31,7 +31,7 @@ func (m *Module) Name() string { return validatorName }
 func (m *Module) Execute(targets map[string]pgs.File, pkgs map[string]pgs.Package) []pgs.Artifact {
 	lang := m.Parameters().Str(langParam)
 	m.Assert(lang != "", "`lang` parameter must be set")
-	module := m.Parameters().Str(moduleParam)
+	modulePrefix := strings.TrimRight(m.Parameters().Str(moduleParam), "/") + "/"
 
 	// Process file-level templates
 	tpls := templates.Template(m.Parameters())[lang]
@@ -51,7 +51,7 @@ func (m *Module) Execute(targets map[string]pgs.File, pkgs map[string]pgs.Packag
 			// implementation-specific FilePathFor implementations.
 			// Ex: Don't generate Java validators for files that don't reference PGV.
 			if out != nil {
-				outPath := strings.TrimLeft(strings.ReplaceAll(out.String(), module, ""), "/")
+				outPath := strings.TrimLeft(strings.TrimPrefix(out.String(), modulePrefix), "/")
 
 				if opts := f.Descriptor().GetOptions(); opts != nil && opts.GetJavaMultipleFiles() && lang == "java" {
 					// TODO: Only Java supports multiple file generation. If more languages add multiple file generation
-- 
2.43.0


From 511f7ddac98115f078efb165f00288456e5489da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 17/72] fix: consider nested types when naming the Java outer
 class

---
 templates/java/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 534785a..880afa8 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -269,13 +269,13 @@ func underscoreBetweenConsecutiveUppercase(name string) string {
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-	for _, enum := range file.Enums() {
+	for _, enum := range file.AllEnums() {
 		if enum.Name().String() == outerClassName {
 			conflict = true
 		}
 	}
 
-	for _, message := range file.Messages() {
+	for _, message := range file.AllMessages() {
 		if message.Name().String() == outerClassName {
 			conflict = true
 		}
-- 
2.43.0


From a1bd4d049672806a4d1387bb63d667b621a217b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 18/72] fix: name the field in the Java error for a required
 wrapper

---
 templates/java/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/wrapper.go b/templates/java/wrapper.go
index 3e3984e..80e1adc 100644
--- a/templates/java/wrapper.go
+++ b/templates/java/wrapper.go
@@ -8,5 +8,5 @@ const wrapperTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				{{- render (unwrap .) }}
 			}
 			{{ if .MessageRules.GetRequired }} else {
-				throw new io.envoyproxy.pgv.ValidationException("{{ $f }}", "null", "is required");
+				throw new io.envoyproxy.pgv.ValidationException("{{ $f.FullyQualifiedName }}", "null", "is required");
 			} {{ end }}`
-- 
2.43.0


From ff76b353f60064ec1894bff3f2a563f328ce8511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 19/72] fix: emit Go lookup tables and patterns for every item,
 key and value rule

---
 templates/goshared/any.go      |  4 +-
 templates/goshared/bytes.go    |  6 +--
 templates/goshared/duration.go |  4 +-
 templates/goshared/in.go       |  4 +-
 templates/goshared/msg.go      | 80 ++++++++--------------------------
 templates/goshared/register.go | 54 ++++++++++++-----------
 templates/goshared/repeated.go |  6 +--
 templates/goshared/string.go   |  2 +-
 8 files changed, 60 insertions(+), 100 deletions(-)

diff --git a/templates/goshared/any.go b/templates/goshared/any.go
index a120592..15817da 100644
--- a/templates/goshared/any.go
+++ b/templates/goshared/any.go
@@ -5,13 +5,13 @@ const anyTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 	if a := {{ accessor . }}; a != nil {
 		{{ if $r.In }}
-			if _, ok := {{ lookup $f "InLookup" }}[a.GetTypeUrl()]; !ok {
+			if _, ok := {{ lookup . "InLookup" }}[a.GetTypeUrl()]; !ok {
 				err := {{ err . "type URL must be in list " $r.In }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else if $r.NotIn }}
-			if _, ok := {{ lookup $f "NotInLookup" }}[a.GetTypeUrl()]; ok {
+			if _, ok := {{ lookup . "NotInLookup" }}[a.GetTypeUrl()]; ok {
 				err := {{ err . "type URL must not be in list " $r.NotIn }}
 				if !all { return err }
 				errors = append(errors, err)
diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index c431f00..e2b70f8 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -68,13 +68,13 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[string({{ accessor . }})]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[string({{ accessor . }})]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[string({{ accessor . }})]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[string({{ accessor . }})]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
@@ -110,7 +110,7 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-	if !{{ lookup $f "Pattern" }}.Match({{ accessor . }}) {
+	if !{{ lookup . "Pattern" }}.Match({{ accessor . }}) {
 		err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 		if !all { return err }
 		errors = append(errors, err)
diff --git a/templates/goshared/duration.go b/templates/goshared/duration.go
index c039ab5..758dbb0 100644
--- a/templates/goshared/duration.go
+++ b/templates/goshared/duration.go
@@ -103,13 +103,13 @@ const durationcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 
 			{{ if $r.In }}
-				if _, ok := {{ lookup $f "InLookup" }}[dur]; !ok {
+				if _, ok := {{ lookup . "InLookup" }}[dur]; !ok {
 					err := {{ err . "value must be in list " $r.In }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else if $r.NotIn }}
-				if _, ok := {{ lookup $f "NotInLookup" }}[dur]; ok {
+				if _, ok := {{ lookup . "NotInLookup" }}[dur]; ok {
 					err := {{ err . "value must not be in list " $r.NotIn }}
 					if !all { return err }
 					errors = append(errors, err)
diff --git a/templates/goshared/in.go b/templates/goshared/in.go
index b6fdfa4..c72e670 100644
--- a/templates/goshared/in.go
+++ b/templates/goshared/in.go
@@ -2,13 +2,13 @@ package goshared
 
 const inTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[{{ accessor . }}]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[{{ accessor . }}]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[{{ accessor . }}]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[{{ accessor . }}]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index 2db0a77..5f96d95 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -141,79 +141,37 @@ var _ interface{
 	ErrorName() string
 } = {{ errname . }}{}
 
-{{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
+{{ range .Fields }}{{ with (context .) }}
+	{{ if eq .Typ "repeated" }}
+		{{ template "lookups" (.Elem "" "") }}
+	{{ else if eq .Typ "map" }}
+		{{ template "lookups" (.Key "" "") }}
+		{{ template "lookups" (.Elem "" "") }}
+	{{ else }}
+		{{ template "lookups" . }}
+	{{ end }}
+{{ end }}{{ end }}
+{{- end -}}
+`
+
+const lookupsTpl = `
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
+		var {{ lookup . "InLookup" }} = map[{{ inType . .Rules.In }}]struct{}{
 			{{- range .Rules.In }}
-				{{ inKey $f . }}: {},
+				{{ inKey . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
+		var {{ lookup . "NotInLookup" }} = map[{{ inType . .Rules.NotIn }}]struct{}{
 			{{- range .Rules.NotIn }}
-				{{ inKey $f . }}: {},
+				{{ inKey . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Items.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "In" }} {{ if .Rules.Items.GetString_.In }}
-		var {{ lookup .Field "InLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "In" }} {{ if .Rules.Items.GetEnum.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.In }}]struct{}{
-			{{- range .Rules.Items.GetEnum.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "NotIn" }} {{ if .Rules.Items.GetString_.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "NotIn" }} {{ if .Rules.Items.GetEnum.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.NotIn }}]struct{}{
-			{{- range .Rules.Items.GetEnum.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
-	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Keys.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
-	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Values.GetString_.GetPattern }})
+		var {{ lookup . "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
 	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-{{ end }}{{ end }}
-{{- end -}}
 `
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 163a934..01ae9ea 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -51,6 +51,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	})
 
 	template.Must(tpl.New("msg").Parse(msgTpl))
+	template.Must(tpl.New("lookups").Parse(lookupsTpl))
 	template.Must(tpl.New("const").Parse(constTpl))
 	template.Must(tpl.New("ltgt").Parse(ltgtTpl))
 	template.Must(tpl.New("in").Parse(inTpl))
@@ -154,11 +155,15 @@ func (fns goSharedFuncs) errIdx(ctx shared.RuleContext, idx string, reason ...in
 	return fns.errIdxCause(ctx, idx, "nil", reason...)
 }
 
-func (fns goSharedFuncs) lookup(f pgs.Field, name string) string {
+func (fns goSharedFuncs) lookup(ctx shared.RuleContext, name string) string {
+	if ctx.OnKey {
+		name = "Key" + name
+	}
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
-		fns.Name(f.Message()),
-		fns.Name(f),
+		fns.Name(ctx.Field.Message()),
+		fns.Name(ctx.Field),
 		name,
 	)
 }
@@ -209,8 +214,18 @@ func (fns goSharedFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fns.OneofOption(f)).Pointer()
 }
 
-func (fns goSharedFuncs) inType(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
+func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
+	ft, typ := ctx.Field.Type(), fns.Type(ctx.Field)
+	pt := ft.ProtoType()
+
+	switch {
+	case ctx.OnKey:
+		pt, typ = ft.Key().ProtoType(), typ.Key()
+	case ft.IsRepeated(), ft.IsMap():
+		pt, typ = ft.Element().ProtoType(), typ.Element()
+	}
+
+	switch pt {
 	case pgs.BytesT:
 		return "string"
 	case pgs.MessageT:
@@ -222,32 +237,19 @@ func (fns goSharedFuncs) inType(f pgs.Field, x interface{}) string {
 		default:
 			return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
 		}
-	case pgs.EnumT:
-		if f.Type().IsRepeated() {
-			return strings.TrimLeft(fns.Type(f).String(), "[]")
-		} else {
-			return fns.Type(f).Value().String()
-		}
 	default:
 		// Use Value() to strip any potential pointer type.
-		return fns.Type(f).Value().String()
+		return typ.Value().String()
 	}
 }
 
-func (fns goSharedFuncs) inKey(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
-	case pgs.MessageT:
-		switch x := x.(type) {
-		case *durationpb.Duration:
-			dur := x.AsDuration()
-			return fns.lit(int64(dur))
-		case []byte:
-			return fns.byteStr(x)
-		default:
-			return fns.lit(x)
-		}
+func (fns goSharedFuncs) inKey(x interface{}) string {
+	switch x := x.(type) {
+	case *durationpb.Duration:
+		dur := x.AsDuration()
+		return fns.lit(int64(dur))
+	case []byte:
+		return fns.byteStr(x)
 	default:
 		return fns.lit(x)
 	}
diff --git a/templates/goshared/repeated.go b/templates/goshared/repeated.go
index a98f350..c5a7ce5 100644
--- a/templates/goshared/repeated.go
+++ b/templates/goshared/repeated.go
@@ -36,7 +36,7 @@ const repTpl = `
 	{{ end }}
 
 	{{ if $r.GetUnique }}
-		{{ lookup $f "Unique" }} := {{ if isBytes $f.Type.Element -}}
+		{{ lookup . "Unique" }} := {{ if isBytes $f.Type.Element -}}
 			make(map[string]struct{}, len({{ accessor . }}))
 		{{ else -}}
 			make(map[{{ (typ $f).Element }}]struct{}, len({{ accessor . }}))
@@ -47,12 +47,12 @@ const repTpl = `
 		for idx, item := range {{ accessor . }} {
 			_, _ = idx, item
 			{{ if $r.GetUnique }}
-				if _, exists := {{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
+				if _, exists := {{ lookup . "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
 					err := {{ errIdx . "idx" "repeated value must contain unique items" }}
 					if !all { return err }
 					errors = append(errors, err)
 				} else {
-					{{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
+					{{ lookup . "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
 				}
 			{{ end }}
 
diff --git a/templates/goshared/string.go b/templates/goshared/string.go
index 8df69b3..d64ba92 100644
--- a/templates/goshared/string.go
+++ b/templates/goshared/string.go
@@ -176,7 +176,7 @@ const strTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-		if !{{ lookup $f "Pattern" }}.MatchString({{ accessor . }}) {
+		if !{{ lookup . "Pattern" }}.MatchString({{ accessor . }}) {
 			err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 			if !all { return err }
 			errors = append(errors, err)
-- 
2.43.0


From b7cc78d4b086899071a31b392ac108cb937b91ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 20/72] fix: support rules on wrapper types in items and map
 values

---
 templates/cc/register.go       |  2 +-
 templates/goshared/register.go |  2 +-
 templates/java/register.go     |  5 +++--
 templates/shared/context.go    | 11 +++++++++++
 templates/shared/well_known.go | 10 ++++++++--
 5 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 615932c..a863654 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -404,7 +404,7 @@ func (fns CCFuncs) unwrap(ctx shared.RuleContext, name string) (shared.RuleConte
 	}
 
 	ctx.AccessorOverride = fmt.Sprintf("%s.%s()", name,
-		ctx.Field.Type().Embed().Fields()[0].Name())
+		ctx.WrapperElem().Fields()[0].Name())
 
 	return ctx, nil
 }
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 01ae9ea..0406c8d 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -299,7 +299,7 @@ func (fns goSharedFuncs) unwrap(ctx shared.RuleContext, name string) (shared.Rul
 	}
 
 	ctx.AccessorOverride = fmt.Sprintf("%s.Get%s()", name,
-		pgsgo.PGGUpperCamelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+		pgsgo.PGGUpperCamelCase(ctx.WrapperElem().Fields()[0].Name()))
 
 	return ctx, nil
 }
diff --git a/templates/java/register.go b/templates/java/register.go
index 880afa8..86b9a0c 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -498,12 +498,13 @@ func (fns javaFuncs) isOfStringType(f pgs.Field) bool {
 }
 
 func (fns javaFuncs) unwrap(ctx shared.RuleContext) (shared.RuleContext, error) {
+	wrapper := fns.accessor(ctx)
 	ctx, err := ctx.Unwrap("wrapped")
 	if err != nil {
 		return ctx, err
 	}
-	ctx.AccessorOverride = fmt.Sprintf("%s.get%s()", fns.fieldAccessor(ctx.Field),
-		fns.camelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+	ctx.AccessorOverride = fmt.Sprintf("%s.get%s()", wrapper,
+		fns.camelCase(ctx.WrapperElem().Fields()[0].Name()))
 	return ctx, nil
 }
 
diff --git a/templates/shared/context.go b/templates/shared/context.go
index dd8b985..8a15b98 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -105,10 +105,21 @@ func (ctx RuleContext) Unwrap(name string) (out RuleContext, err error) {
 		Rules:            ctx.Rules,
 		MessageRules:     ctx.MessageRules,
 		Typ:              ctx.WrapperTyp,
+		Index:            ctx.Index,
 		AccessorOverride: name,
 	}, nil
 }
 
+// WrapperElem returns the well-known wrapper message validated by a wrapper
+// context, which is either the type of the field or of its elements.
+func (ctx RuleContext) WrapperElem() pgs.Message {
+	if ft := ctx.Field.Type(); ft.IsRepeated() || ft.IsMap() {
+		return ft.Element().Embed()
+	}
+
+	return ctx.Field.Type().Embed()
+}
+
 func Render(tpl *template.Template) func(ctx RuleContext) (string, error) {
 	return func(ctx RuleContext) (string, error) {
 		var b bytes.Buffer
diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 0747f16..dbbc575 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -34,7 +34,7 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 		}
 
 		switch {
-		case f.Type().IsRepeated() && f.Type().Element().ProtoType() == pgs.StringT:
+		case f.Type().IsRepeated() && isString(f.Type().Element()):
 			if strRulesNeeds(rules.GetRepeated().GetItems().GetString_(), wk) {
 				return true
 			}
@@ -43,7 +43,7 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 				strRulesNeeds(rules.GetMap().GetKeys().GetString_(), wk) {
 				return true
 			}
-			if f.Type().Element().ProtoType() == pgs.StringT &&
+			if isString(f.Type().Element()) &&
 				strRulesNeeds(rules.GetMap().GetValues().GetString_(), wk) {
 				return true
 			}
@@ -61,6 +61,12 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 	return false
 }
 
+// isString returns true if the element is a string or a StringValue.
+func isString(el pgs.FieldTypeElem) bool {
+	return el.ProtoType() == pgs.StringT ||
+		el.IsEmbed() && el.Embed().WellKnownType() == pgs.StringValueWKT
+}
+
 func strRulesNeeds(rules *validate.StringRules, wk WellKnown) bool {
 	switch wk {
 	case Email:
-- 
2.43.0


From 5ba75945491773a625dc83cca53c3b8c2d47f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 21/72] fix: drop repeated values from Go in and not_in lookup
 tables

---
 templates/goshared/msg.go      |  8 ++++----
 templates/goshared/register.go | 23 ++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index 5f96d95..4f647c1 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -157,16 +157,16 @@ var _ interface{
 const lookupsTpl = `
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
 		var {{ lookup . "InLookup" }} = map[{{ inType . .Rules.In }}]struct{}{
-			{{- range .Rules.In }}
-				{{ inKey . }}: {},
+			{{- range inKeys .Rules.In }}
+				{{ . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
 		var {{ lookup . "NotInLookup" }} = map[{{ inType . .Rules.NotIn }}]struct{}{
-			{{- range .Rules.NotIn }}
-				{{ inKey . }}: {},
+			{{- range inKeys .Rules.NotIn }}
+				{{ . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 0406c8d..819ab44 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -32,7 +32,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"errIdxCause":   fns.errIdxCause,
 		"errname":       fns.errName,
 		"multierrname":  fns.multiErrName,
-		"inKey":         fns.inKey,
+		"inKeys":        fns.inKeys,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
 		"lit":           fns.lit,
@@ -243,6 +243,27 @@ func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
 	}
 }
 
+// inKeys returns the distinct keys of a lookup table for the values in list,
+// as a map literal cannot repeat a constant key.
+func (fns goSharedFuncs) inKeys(list interface{}) []string {
+	var keys []string
+	seen := map[string]bool{}
+
+	for i, val := 0, reflect.ValueOf(list); i < val.Len(); i++ {
+		key := fns.inKey(val.Index(i).Interface())
+		if key == "-0" {
+			key = "0"
+		}
+
+		if !seen[key] {
+			seen[key] = true
+			keys = append(keys, key)
+		}
+	}
+
+	return keys
+}
+
 func (fns goSharedFuncs) inKey(x interface{}) string {
 	switch x := x.(type) {
 	case *durationpb.Duration:
-- 
2.43.0


From c1efe8978e799c3258333f3c00e9aa13cbf76d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 22/72] fix: import the packages of external enums used by
 repeated and map fields

---
 templates/goshared/register.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 819ab44..a84738a 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -334,7 +334,12 @@ func (fns goSharedFuncs) externalEnums(file pgs.File) []pgs.Enum {
 
 	for _, msg := range file.AllMessages() {
 		for _, fld := range msg.Fields() {
-			if en := fld.Type().Enum(); fld.Type().IsEnum() && en.Package().ProtoName() != fld.Package().ProtoName() && fns.PackageName(en) != fns.PackageName(fld) {
+			en := fld.Type().Enum()
+			if ft := fld.Type(); ft.IsRepeated() || ft.IsMap() {
+				en = ft.Element().Enum()
+			}
+
+			if en != nil && fns.ImportPath(en) != fns.ImportPath(fld) {
 				out = append(out, en)
 			}
 		}
-- 
2.43.0


From 59ec6fb529f1d7a77824b01652e9c268d966b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 23/72] fix: keep dots of the file name out of generated Go
 identifiers

---
 templates/goshared/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index a84738a..2589c21 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -359,5 +359,5 @@ func (fns goSharedFuncs) enumPackages(enums []pgs.Enum) map[pgs.FilePath]pgs.Nam
 }
 
 func (fns goSharedFuncs) snakeCase(name string) string {
-	return strcase.ToSnake(name)
+	return strings.ReplaceAll(strcase.ToSnake(name), ".", "_")
 }
-- 
2.43.0


From d5b0b24bfbaa153f4e62d98f31bc6c268b34afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 24/72] fix: emit C++ lookup tables and patterns for every
 item, key and value rule

---
 templates/cc/any.go      |   4 +-
 templates/cc/bytes.go    |   2 +-
 templates/cc/duration.go |   4 +-
 templates/cc/in.go       |   6 +-
 templates/cc/msg.go      | 109 ++++++++++------------------------
 templates/cc/register.go | 124 +++++++++++++++++++++++++--------------
 templates/cc/repeated.go |   6 +-
 templates/cc/string.go   |   2 +-
 8 files changed, 123 insertions(+), 134 deletions(-)

diff --git a/templates/cc/any.go b/templates/cc/any.go
index 2dd32ca..0640b40 100644
--- a/templates/cc/any.go
+++ b/templates/cc/any.go
@@ -4,12 +4,12 @@ const anyTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ template "required" . }}
 
 	{{ if $r.In }}
-		{{ $table := lookup $f "InLookup" }}
+		{{ $table := lookup . "InLookup" }}
 		if ({{ hasAccessor . }} && {{ $table }}.find({{ accessor . }}.type_url()) == {{ $table }}.end()) {
 			{{ err . "type URL must be in list " $r.In }}
 		}
 	{{ else if $r.NotIn }}
-		{{ $table := lookup $f "NotInLookup" }}
+		{{ $table := lookup . "NotInLookup" }}
 		if ({{ hasAccessor . }} && {{ $table }}.find({{ accessor . }}.type_url()) != {{ $table }}.end()) {
 			{{ err . "type URL must not be in list " $r.NotIn }}
 		}
diff --git a/templates/cc/bytes.go b/templates/cc/bytes.go
index 9bae2c8..7af0ba0 100644
--- a/templates/cc/bytes.go
+++ b/templates/cc/bytes.go
@@ -69,7 +69,7 @@ const bytesTpl = `
         {{ if $r.Pattern }}
         {
                 if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
-                                    {{ lookup $f "Pattern" }})) {
+                                    {{ lookup . "Pattern" }})) {
 		        {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 	        }
         }
diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 16f086f..90e7f1e 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -76,10 +76,10 @@ const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 
 			{{ if $r.In }}
-				if ({{ lookup $f "InLookup" }}.find(dur) == {{ lookup $f "InLookup" }}.end())
+				if ({{ lookup . "InLookup" }}.find(dur) == {{ lookup . "InLookup" }}.end())
 					{{ err . "value must be in list " $r.In }}
 			{{ else if $r.NotIn }}
-				if ({{ lookup $f "NotInLookup" }}.find(dur) != {{ lookup $f "NotInLookup" }}.end())
+				if ({{ lookup . "NotInLookup" }}.find(dur) != {{ lookup . "NotInLookup" }}.end())
 					{{ err . "value must not be in list " $r.NotIn }}
 			{{ end }}
 	        }
diff --git a/templates/cc/in.go b/templates/cc/in.go
index c9b8f75..dacb879 100644
--- a/templates/cc/in.go
+++ b/templates/cc/in.go
@@ -1,12 +1,12 @@
 package cc
 
-const inTpl = `{{ $f := .Field -}}{{ $r := .Rules -}}
+const inTpl = `{{ $r := .Rules -}}
 	{{- if $r.In }}
-		if ({{ lookup $f "InLookup" }}.find(static_cast<decltype({{ lookup $f "InLookup" }})::key_type>({{ accessor . }})) == {{ lookup $f "InLookup" }}.end()) {
+		if ({{ lookup . "InLookup" }}.find(static_cast<decltype({{ lookup . "InLookup" }})::key_type>({{ accessor . }})) == {{ lookup . "InLookup" }}.end()) {
 			{{ err . "value must be in list " $r.In }}
 		}
 	{{- else if $r.NotIn }}
-		if ({{ lookup $f "NotInLookup" }}.find(static_cast<decltype({{ lookup $f "NotInLookup" }})::key_type>({{ accessor . }})) != {{ lookup $f "NotInLookup" }}.end()) {
+		if ({{ lookup . "NotInLookup" }}.find(static_cast<decltype({{ lookup . "NotInLookup" }})::key_type>({{ accessor . }})) != {{ lookup . "NotInLookup" }}.end()) {
 			{{ err . "value must not be in list " $r.NotIn }}
 		}
 	{{- end }}
diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index a54450e..d5b07c4 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -14,83 +14,15 @@ const msgTpl = `
 	{{ cmt "Validate checks the field values on " (class .) " with the rules defined in the proto definition for this message. If any rules are violated, the return value is false and an error message is written to the input string argument." }}
 {{- end -}}
 
-{{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
-	{{ if has .Rules "In" }}{{ if .Rules.In }}
-	const std::set<{{ inType .Field .Rules.In }}> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-	const std::set<{{ inType .Field .Rules.NotIn }}> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "In" }} {{ if .Rules.Items.GetString_.In }}
-	const std::set<string> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.Items.GetString_.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "In" }} {{ if .Rules.Items.GetEnum.In }}
-	const std::set<{{ inType .Field .Rules.Items.GetEnum.In }}> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.Items.GetEnum.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "NotIn" }} {{ if .Rules.Items.GetString_.NotIn }}
-	const std::set<string> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.Items.GetString_.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "NotIn" }} {{ if .Rules.Items.GetEnum.NotIn }}
-	const std::set<{{ inType .Field .Rules.Items.GetEnum.NotIn }}> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.Items.GetEnum.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-        {{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
-                                                            sizeof({{ lit .Rules.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-        {{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Items.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Items.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-        {{ end }}{{ end }}
-
-        {{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
-	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Keys.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Keys.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
-	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Values.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Values.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
+{{ range .Fields }}{{ with (context .) }}
+	{{ if eq .Typ "repeated" }}
+		{{ template "lookups" (.Elem "" "") }}
+	{{ else if eq .Typ "map" }}
+		{{ template "lookups" (.Key "" "") }}
+		{{ template "lookups" (.Elem "" "") }}
+	{{ else }}
+		{{ template "lookups" . }}
+	{{ end }}
 {{ end }}{{ end }}
 
 bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
@@ -122,3 +54,26 @@ bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
 }
 {{- end -}}
 `
+
+const lookupsTpl = `{{ $ctx := . }}
+	{{ if has .Rules "In" }}{{ if .Rules.In }}
+	const std::set<{{ inType . .Rules.In }}> {{ lookup . "InLookup" }} = {
+			{{- range .Rules.In }}
+				{{ inKey $ctx . }},
+			{{- end }}
+		};
+	{{ end }}{{ end }}
+
+	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
+	const std::set<{{ inType . .Rules.NotIn }}> {{ lookup . "NotInLookup" }} = {
+			{{- range .Rules.NotIn }}
+				{{ inKey $ctx . }},
+			{{- end }}
+		};
+	{{ end }}{{ end }}
+
+        {{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
+               const re2::RE2 {{ lookup . "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
+                                                            sizeof({{ lit .Rules.GetPattern }}) - 1));
+	{{ end }}{{ end }}
+`
diff --git a/templates/cc/register.go b/templates/cc/register.go
index a863654..f3bc3c5 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -51,6 +51,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 	})
 	template.Must(tpl.Parse(moduleFileTpl))
 	template.Must(tpl.New("msg").Parse(msgTpl))
+	template.Must(tpl.New("lookups").Parse(lookupsTpl))
 	template.Must(tpl.New("const").Parse(constTpl))
 	template.Must(tpl.New("ltgt").Parse(ltgtTpl))
 	template.Must(tpl.New("in").Parse(inTpl))
@@ -217,11 +218,15 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 	return strings.Join(output, "\n")
 }
 
-func (fns CCFuncs) lookup(f pgs.Field, name string) string {
+func (fns CCFuncs) lookup(ctx shared.RuleContext, name string) string {
+	if ctx.OnKey {
+		name = "Key" + name
+	}
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
-		pgsgo.PGGUpperCamelCase(f.Message().Name()),
-		pgsgo.PGGUpperCamelCase(f.Name()),
+		fns.classBaseName(ctx.Field.Message()),
+		pgsgo.PGGUpperCamelCase(ctx.Field.Name()),
 		name,
 	)
 }
@@ -282,43 +287,76 @@ func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 		strings.ReplaceAll(pgsgo.PGGUpperCamelCase(f.Name()).String(), "_", "")))
 }
 
-func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
+// valueType is the type of a singular field, an item, a map key or a map value.
+type valueType interface {
+	ProtoType() pgs.ProtoType
+	Enum() pgs.Enum
+	Embed() pgs.Message
+}
+
+// ruleType returns the type of the values the rules in ctx apply to.
+func (fns CCFuncs) ruleType(ctx shared.RuleContext) valueType {
+	t := ctx.Field.Type()
+	if ctx.OnKey {
+		return t.Key()
+	}
+	if t.IsRepeated() || t.IsMap() {
+		return t.Element()
+	}
+	return t
+}
+
+func (fns CCFuncs) inType(ctx shared.RuleContext, x interface{}) string {
+	t := fns.ruleType(ctx)
+	if t.ProtoType() != pgs.MessageT {
+		return fns.valueType(t)
+	}
+
+	switch x.(type) {
+	case nil:
+		return fns.className(t.Embed())
+	case []string, [][]byte:
 		return "string"
-	case pgs.MessageT:
-		switch x.(type) {
-		case []string:
-			return "string"
-		case []*durationpb.Duration:
-			return "pgv::protobuf_wkt::Duration"
-		default:
-			return fns.className(f.Type().Element().Embed())
-		}
+	case []*durationpb.Duration:
+		return "pgv::protobuf_wkt::Duration"
 	default:
-		return fns.cType(f.Type())
+		return fns.cTypeOfString(strings.TrimPrefix(fmt.Sprintf("%T", x), "[]"))
 	}
 }
 
 func (fns CCFuncs) cType(t pgs.FieldType) string {
-	if t.IsEmbed() {
-		return fns.className(t.Embed())
+	if t.IsRepeated() || t.IsMap() {
+		return fns.valueType(t.Element())
 	}
-	if t.IsRepeated() {
-		if t.ProtoType() == pgs.MessageT {
-			return fns.className(t.Element().Embed())
-		}
-		// Strip the leading []
-		return fns.cTypeOfString(fns.Type(t.Field()).String()[2:])
-	} else if t.IsMap() {
-		if t.Element().IsEmbed() {
-			return fns.className(t.Element().Embed())
-		}
 
-		return fns.cTypeOfString(fns.Type(t.Field()).Element().String())
-	}
+	return fns.valueType(t)
+}
 
-	return fns.cTypeOfString(fns.Type(t.Field()).String())
+func (fns CCFuncs) valueType(t valueType) string {
+	switch t.ProtoType() {
+	case pgs.MessageT, pgs.GroupT:
+		return fns.className(t.Embed())
+	case pgs.EnumT:
+		return fns.className(t.Enum())
+	case pgs.StringT, pgs.BytesT:
+		return "string"
+	case pgs.BoolT:
+		return "bool"
+	case pgs.FloatT:
+		return "float"
+	case pgs.DoubleT:
+		return "double"
+	case pgs.Int32T, pgs.SInt32, pgs.SFixed32:
+		return "int32_t"
+	case pgs.Int64T, pgs.SInt64, pgs.SFixed64:
+		return "int64_t"
+	case pgs.UInt32T, pgs.Fixed32T:
+		return "uint32_t"
+	case pgs.UInt64T, pgs.Fixed64T:
+		return "uint64_t"
+	default:
+		panic(fmt.Sprintf("don't know the C++ type of %v", t.ProtoType()))
+	}
 }
 
 func (fns CCFuncs) cTypeOfString(s string) string {
@@ -335,26 +373,22 @@ func (fns CCFuncs) cTypeOfString(s string) string {
 		return "uint32_t"
 	case "uint64":
 		return "uint64_t"
-	case "[]byte":
-		return "string"
 	default:
 		return s
 	}
 }
 
-func (fns CCFuncs) inKey(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
-	case pgs.MessageT:
-		switch x := x.(type) {
-		case *durationpb.Duration:
-			return fns.durLit(x)
-		default:
-			return fns.lit(x)
+func (fns CCFuncs) inKey(ctx shared.RuleContext, x interface{}) string {
+	switch x := x.(type) {
+	case []byte:
+		return fns.byteStr(x)
+	case *durationpb.Duration:
+		return fns.durLit(x)
+	case int32:
+		if t := fns.ruleType(ctx); t.ProtoType() == pgs.EnumT {
+			return fmt.Sprintf("%s(%d)", fns.className(t.Enum()), x)
 		}
-	case pgs.EnumT:
-		return fmt.Sprintf("%s(%d)", fns.cType(f.Type()), x.(int32))
+		return fns.lit(x)
 	default:
 		return fns.lit(x)
 	}
diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 53b2a35..44bcd7a 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -1,7 +1,7 @@
 package cc
 
 const repTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := inType $f nil }}
+	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := inType (.Elem "" "") nil }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
 	{{ end }}
@@ -42,7 +42,7 @@ const repTpl = `
 	};
 
 	// Save a set of references to avoid copying overhead
-	std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup $f "Unique" }};
+	std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup . "Unique" }};
 	{{ end }}
 
 	{{ if or $r.GetUnique (ne (.Elem "" "").Typ "none") }}
@@ -51,7 +51,7 @@ const repTpl = `
 			(void)item;
 
 			{{ if $r.GetUnique }}
-				auto p = {{ lookup $f "Unique" }}.emplace(const_cast<{{ $typ }}&>(item));
+				auto p = {{ lookup . "Unique" }}.emplace(const_cast<{{ $typ }}&>(item));
 				if (p.second == false) {
 					{{ errIdx . "i" "repeated value must contain unique items" }}
 				}
diff --git a/templates/cc/string.go b/templates/cc/string.go
index 112966c..b058a06 100644
--- a/templates/cc/string.go
+++ b/templates/cc/string.go
@@ -112,7 +112,7 @@ const strTpl = `
         {{ if $r.Pattern }}
         {
                 if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
-                                    {{ lookup $f "Pattern" }})) {
+                                    {{ lookup . "Pattern" }})) {
 		        {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 	        }
         }
-- 
2.43.0


From 6551f9f8629f146c83ef7e1bd3462907bb93ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 25/72] fix: scope the C++ unique helpers and store enum items
 as int

---
 templates/cc/register.go | 12 ++++++++++--
 templates/cc/repeated.go |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index f3bc3c5..283986d 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -47,6 +47,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"tsStr":         fns.tsStr,
 		"typ":           fns.Type,
 		"unimplemented": fns.failUnimplemented,
+		"uniqueType":    fns.uniqueType,
 		"unwrap":        fns.unwrap,
 	})
 	template.Must(tpl.Parse(moduleFileTpl))
@@ -313,8 +314,6 @@ func (fns CCFuncs) inType(ctx shared.RuleContext, x interface{}) string {
 	}
 
 	switch x.(type) {
-	case nil:
-		return fns.className(t.Embed())
 	case []string, [][]byte:
 		return "string"
 	case []*durationpb.Duration:
@@ -324,6 +323,15 @@ func (fns CCFuncs) inType(ctx shared.RuleContext, x interface{}) string {
 	}
 }
 
+// uniqueType is the type protoc stores the items of a repeated field as.
+func (fns CCFuncs) uniqueType(ctx shared.RuleContext) string {
+	t := ctx.Field.Type().Element()
+	if t.ProtoType() == pgs.EnumT {
+		return "int"
+	}
+	return fns.valueType(t)
+}
+
 func (fns CCFuncs) cType(t pgs.FieldType) string {
 	if t.IsRepeated() || t.IsMap() {
 		return fns.valueType(t.Element())
diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 44bcd7a..7ab2117 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -1,7 +1,7 @@
 package cc
 
 const repTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := inType (.Elem "" "") nil }}
+	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := uniqueType . }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
 	{{ end }}
@@ -26,6 +26,7 @@ const repTpl = `
 	{{ end }}
 
 	{{ if $r.GetUnique }}
+	{
 	// Implement comparison for wrapped reference types
 	struct cmp {
 		bool operator() (const std::reference_wrapper<{{ $typ }}> lhs, const std::reference_wrapper<{{ $typ }}> rhs) const {
@@ -60,6 +61,9 @@ const repTpl = `
 			{{ render (.Elem "item" "i") }}
 		}
 	{{ end }}
+	{{ if $r.GetUnique }}
+	}
+	{{ end }}
 	{{ if $r.GetIgnoreEmpty }}
 		}
 	{{ end }}
-- 
2.43.0


From 7a81eada663d78e6426f4b7dc1406fcd7ca04b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 26/72] fix: name C++ accessors, classes and oneof cases like
 protoc does

---
 templates/cc/register.go | 72 ++++++++++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 13 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 283986d..b9aa868 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -6,6 +6,7 @@ import (
 	"strconv"
 	"strings"
 	"text/template"
+	"unicode"
 
 	"github.com/envoyproxy/protoc-gen-validate/templates/shared"
 	"github.com/iancoleman/strcase"
@@ -115,16 +116,38 @@ func CcFilePath(f pgs.File, ctx pgsgo.Context, tpl *template.Template) *pgs.File
 	return &out
 }
 
-func (fns CCFuncs) methodName(name interface{}) string {
-	nameStr := fmt.Sprintf("%s", name)
-	switch nameStr {
-	case "const":
-		return "const_"
-	case "inline":
-		return "inline_"
-	default:
-		return nameStr
+// keywords are the names protoc appends an underscore to in generated C++.
+var keywords = makeSet("NULL", "alignas", "alignof", "and", "and_eq", "asm",
+	"auto", "bitand", "bitor", "bool", "break", "case", "catch", "char",
+	"class", "compl", "const", "constexpr", "const_cast", "continue",
+	"decltype", "default", "delete", "do", "double", "dynamic_cast", "else",
+	"enum", "explicit", "export", "extern", "false", "float", "for", "friend",
+	"goto", "if", "inline", "int", "long", "mutable", "namespace", "new",
+	"noexcept", "not", "not_eq", "nullptr", "operator", "or", "or_eq",
+	"private", "protected", "public", "register", "reinterpret_cast",
+	"return", "short", "signed", "sizeof", "static", "static_assert",
+	"static_cast", "struct", "switch", "template", "this", "thread_local",
+	"throw", "true", "try", "typedef", "typeid", "typename", "union",
+	"unsigned", "using", "virtual", "void", "volatile", "wchar_t", "while",
+	"xor", "xor_eq")
+
+func makeSet(names ...string) map[string]struct{} {
+	set := make(map[string]struct{}, len(names))
+	for _, name := range names {
+		set[name] = struct{}{}
+	}
+	return set
+}
+
+func resolveKeyword(name string) string {
+	if _, ok := keywords[name]; ok {
+		return name + "_"
 	}
+	return name
+}
+
+func (fns CCFuncs) methodName(name interface{}) string {
+	return resolveKeyword(strings.ToLower(fmt.Sprintf("%s", name)))
 }
 
 func (fns CCFuncs) accessor(ctx shared.RuleContext) string {
@@ -153,10 +176,11 @@ type childEntity interface {
 }
 
 func (fns CCFuncs) classBaseName(ent childEntity) string {
+	name := ent.Name().String()
 	if m, ok := ent.Parent().(pgs.Message); ok {
-		return fmt.Sprintf("%s_%s", fns.classBaseName(m), ent.Name().String())
+		name = fmt.Sprintf("%s_%s", fns.classBaseName(m), name)
 	}
-	return ent.Name().String()
+	return resolveKeyword(name)
 }
 
 func (fns CCFuncs) className(ent childEntity) string {
@@ -284,8 +308,30 @@ func (fns CCFuncs) byteStr(x []byte) string {
 func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fmt.Sprintf("%s::%sCase::k%s",
 		fns.className(f.Message()),
-		pgsgo.PGGUpperCamelCase(f.OneOf().Name()),
-		strings.ReplaceAll(pgsgo.PGGUpperCamelCase(f.Name()).String(), "_", "")))
+		camelCase(f.OneOf().Name()),
+		camelCase(f.Name())))
+}
+
+// camelCase converts a proto name the way protoc names oneof cases.
+func camelCase(name pgs.Name) string {
+	var out strings.Builder
+	upper := true
+	for _, r := range name.String() {
+		switch {
+		case r == '_':
+			upper = true
+			continue
+		case r >= '0' && r <= '9':
+			out.WriteRune(r)
+			upper = true
+			continue
+		case upper:
+			r = unicode.ToUpper(r)
+		}
+		out.WriteRune(r)
+		upper = false
+	}
+	return out.String()
 }
 
 // valueType is the type of a singular field, an item, a map key or a map value.
-- 
2.43.0


From 793ca7d05db5a2500615867dfde61edae6c26d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 27/72] fix: take the C++ namespaces from the dots of the
 package name only

---
 templates/cc/file.go     |  8 ++++----
 templates/cc/register.go | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index a85cf82..06bd8be 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -34,7 +34,7 @@ pgv::Validator<{{ class . }}> {{ staticVarName . }}(static_cast<bool(*)(const {{
 } // namespace validate
 } // namespace pgv
 
-{{ range .Package.ProtoName.Split }}
+{{ range namespaces . }}
 namespace {{ . }} {
 {{- end }}
 
@@ -42,7 +42,7 @@ namespace {{ . }} {
 	{{- template "msg" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ range namespaces . -}}
 } // namespace
 {{ end }}
 `
@@ -62,7 +62,7 @@ const headerFileTpl = `// Code generated by protoc-gen-validate
 #include "validate/validate.h"
 #include "{{ output .File ".h" }}"
 
-{{ range .Package.ProtoName.Split }}
+{{ range namespaces . }}
 namespace {{ . }} {
 {{- end }}
 
@@ -72,7 +72,7 @@ using std::string;
 	{{- template "decl" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ range namespaces . -}}
 } // namespace
 {{ end }}
 
diff --git a/templates/cc/register.go b/templates/cc/register.go
index b9aa868..235e843 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -39,6 +39,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"lit":           fns.lit,
 		"lookup":        fns.lookup,
 		"oneof":         fns.oneofTypeName,
+		"namespaces":    fns.namespaces,
 		"output":        fns.output,
 		"package":       fns.packageName,
 		"quote":         fns.quote,
@@ -99,6 +100,7 @@ func RegisterHeader(tpl *template.Template, params pgs.Parameters) {
 
 	tpl.Funcs(map[string]interface{}{
 		"class":                fns.className,
+		"namespaces":           fns.namespaces,
 		"output":               fns.output,
 		"screaming_snake_case": strcase.ToScreamingSnake,
 	})
@@ -188,7 +190,20 @@ func (fns CCFuncs) className(ent childEntity) string {
 }
 
 func (fns CCFuncs) packageName(msg pgs.Entity) string {
-	return "::" + strings.Join(msg.Package().ProtoName().Split(), "::")
+	var out string
+	for _, ns := range fns.namespaces(msg) {
+		out += "::" + ns
+	}
+	return out
+}
+
+// namespaces lists the C++ namespaces of the package of ent, outermost first.
+func (fns CCFuncs) namespaces(ent pgs.Entity) []string {
+	pkg := ent.Package().ProtoName().String()
+	if pkg == "" {
+		return nil
+	}
+	return strings.Split(pkg, ".")
 }
 
 func (fns CCFuncs) quote(s interface {
-- 
2.43.0


From 88b1bd350ed0e3cc8241e5a300032c12688dcbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 28/72] fix: format C++ constants so that they keep their exact
 value

---
 templates/cc/bytes.go    |   6 +--
 templates/cc/const.go    |   2 +-
 templates/cc/file.go     |   2 +
 templates/cc/ltgt.go     |  24 ++++-----
 templates/cc/register.go | 109 ++++++++++++++++++++++++++++++---------
 templates/cc/string.go   |   8 +--
 6 files changed, 107 insertions(+), 44 deletions(-)

diff --git a/templates/cc/bytes.go b/templates/cc/bytes.go
index 7af0ba0..edd2a6b 100644
--- a/templates/cc/bytes.go
+++ b/templates/cc/bytes.go
@@ -42,7 +42,7 @@ const bytesTpl = `
 
 	{{ if $r.Prefix }}
 	{
-		const std::string prefix = {{ lit $r.GetPrefix }};
+		const std::string prefix = {{ expr $r.GetPrefix }};
 		if (!pgv::IsPrefix(prefix, {{ accessor . }})) {
 			{{ err . "value does not have prefix " (lit $r.GetPrefix) }}
 		}
@@ -51,7 +51,7 @@ const bytesTpl = `
 
 	{{ if $r.Suffix }}
 	{
-		const std::string suffix = {{ lit $r.GetSuffix }};
+		const std::string suffix = {{ expr $r.GetSuffix }};
 		if (!pgv::IsSuffix(suffix, {{ accessor .}})) {
 			{{ err . "value does not have suffix " (lit $r.GetSuffix) }}
 		}
@@ -60,7 +60,7 @@ const bytesTpl = `
 
 	{{ if $r.Contains }}
 	{
-		if (!pgv::Contains({{ accessor . }}, {{ lit $r.GetContains }})) {
+		if (!pgv::Contains({{ accessor . }}, {{ expr $r.GetContains }})) {
 			{{ err . "value does not contain substring " (lit $r.GetContains) }}
 		}
 	}
diff --git a/templates/cc/const.go b/templates/cc/const.go
index 6fe87e9..47ecd14 100644
--- a/templates/cc/const.go
+++ b/templates/cc/const.go
@@ -2,7 +2,7 @@ package cc
 
 const constTpl = `{{ $r := .Rules }}
 	{{ if isset $r.Const }}
-		if ({{ accessor . }} != {{ lit $r.GetConst }}) {
+		if ({{ accessor . }} != {{ expr $r.GetConst }}) {
 			{{ err . "value must equal " (lit $r.GetConst) }}
 		}
 	{{ end }}
diff --git a/templates/cc/file.go b/templates/cc/file.go
index 06bd8be..bb01865 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -6,6 +6,8 @@ const moduleFileTpl = `// Code generated by protoc-gen-validate
 
 #include "{{ output .File ".validate.h" }}"
 
+#include <limits>
+
 #include <google/protobuf/message.h>
 #include <google/protobuf/util/time_util.h>
 #include "re2/re2.h"
diff --git a/templates/cc/ltgt.go b/templates/cc/ltgt.go
index f296d93..badb2ae 100644
--- a/templates/cc/ltgt.go
+++ b/templates/cc/ltgt.go
@@ -4,61 +4,61 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}{{ $v := (accessor .) }}
 	{{ if $r.Lt }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLt $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} <= {{ expr $r.Gt }} || {{ $v }} >= {{ expr $r.Lt }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} >= {{ expr $r.Lt }} && {{ $v }} <= {{ expr $r.Gt }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{  if gt $r.GetLt $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} < {{ expr $r.Gte }} || {{ $v }} >= {{ expr $r.Lt }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} >= {{ expr $r.Lt }} && {{ $v }} < {{ expr $r.Gte }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} >= {{ $r.Lt }}) {
+			if ({{ accessor . }} >= {{ expr $r.Lt }}) {
 				{{ err . "value must be less than " $r.GetLt }}
 			}
 		{{ end }}
 	{{ else if $r.Lte }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLte $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} <= {{ expr $r.Gt }} || {{ $v }} > {{ expr $r.Lte }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} > {{ expr $r.Lte }} && {{ $v }} <= {{ expr $r.Gt }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{ if gt $r.GetLte $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} < {{ expr $r.Gte }} || {{ $v }} > {{ expr $r.Lte }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} > {{ expr $r.Lte }} && {{ $v }} < {{ expr $r.Gte }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} > {{ $r.Lte }}) {
+			if ({{ accessor . }} > {{ expr $r.Lte }}) {
 				{{ err . "value must be less than or equal to " $r.GetLte }}
 			}
 		{{ end }}
 	{{ else if $r.Gt }}
-		if ({{ accessor . }} <= {{ $r.Gt }}) {
+		if ({{ accessor . }} <= {{ expr $r.Gt }}) {
 			{{ err . "value must be greater than " $r.GetGt }}
 		}
 	{{ else if $r.Gte }}
-		if ({{ accessor . }} < {{ $r.Gte }}) {
+		if ({{ accessor . }} < {{ expr $r.Gte }}) {
 			{{ err . "value must be greater than or equal to " $r.GetGte }}
 		}
 	{{ end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 235e843..30e3f9f 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -2,11 +2,13 @@ package cc
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
 	"text/template"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/envoyproxy/protoc-gen-validate/templates/shared"
 	"github.com/iancoleman/strcase"
@@ -21,7 +23,6 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 
 	tpl.Funcs(map[string]interface{}{
 		"accessor":      fns.accessor,
-		"byteStr":       fns.byteStr,
 		"class":         fns.className,
 		"cmt":           pgs.C80,
 		"ctype":         fns.cType,
@@ -32,6 +33,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"errCause":      fns.errCause,
 		"errIdx":        fns.errIdx,
 		"errIdxCause":   fns.errIdxCause,
+		"expr":          fns.expr,
 		"hasAccessor":   fns.hasAccessor,
 		"inKey":         fns.inKey,
 		"inType":        fns.inType,
@@ -246,7 +248,7 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 		output = append(output, fmt.Sprintf(`msg << "[" << %s << "]";`, ctx.Index))
 	}
 
-	output = append(output, fmt.Sprintf(`msg << ": " << %q;`, fmt.Sprint(reason...)))
+	output = append(output, fmt.Sprintf(`msg << ": " << %s;`, cString(fmt.Sprint(reason...))))
 
 	if cause != "nil" && cause != "" {
 		output = append(output, fmt.Sprintf(`msg << " | caused by " << %s;`, cause))
@@ -284,40 +286,101 @@ func (fns CCFuncs) lit(x interface{}) string {
 
 	switch val.Kind() {
 	case reflect.String:
-		return fmt.Sprintf("%q", x)
+		return cString(val.String())
 	case reflect.Uint8:
 		return fmt.Sprintf("%d", x)
 	case reflect.Slice:
-		els := make([]string, val.Len())
-		switch reflect.TypeOf(x).Elem().Kind() {
+		switch val.Type().Elem().Kind() {
 		case reflect.Uint8:
-			for i, l := 0, val.Len(); i < l; i++ {
-				els[i] = fmt.Sprintf("\\x%x", val.Index(i).Interface())
-			}
-			return fmt.Sprintf("\"%s\"", strings.Join(els, ""))
+			return byteStr(val.Bytes())
 		default:
 			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 		}
-	case reflect.Float32:
-		return fmt.Sprintf("%fF", x)
 	default:
-		return fmt.Sprint(x)
+		return fmt.Sprint(val.Interface())
 	}
 }
 
-func (fns CCFuncs) isBytes(f interface {
-	ProtoType() pgs.ProtoType
-}) bool {
-	return f.ProtoType() == pgs.BytesT
+// expr formats a rule constant as a C++ expression of exactly its value:
+// strings and bytes keep embedded NULs, numbers their precision and sign.
+func (fns CCFuncs) expr(x interface{}) string {
+	val := reflect.Indirect(reflect.ValueOf(x))
+
+	switch val.Kind() {
+	case reflect.String, reflect.Slice:
+		return fmt.Sprintf("std::string(%s, %d)", fns.lit(x), val.Len())
+	case reflect.Float32, reflect.Float64:
+		return floatExpr(val.Float(), val.Type().Bits())
+	case reflect.Int64:
+		if val.Int() == math.MinInt64 {
+			// There is no such literal: the minus sign is an operator.
+			return "(-9223372036854775807LL - 1)"
+		}
+	case reflect.Uint64:
+		return fmt.Sprintf("%dULL", val.Uint())
+	}
+	return fns.lit(x)
+}
+
+// cString quotes s for C++. Escapes are octal, which unlike hexadecimal ones
+// end after three digits, and question marks are escaped against trigraphs.
+func cString(s string) string {
+	var out strings.Builder
+	out.WriteByte('"')
+	for i := 0; i < len(s); {
+		r, size := utf8.DecodeRuneInString(s[i:])
+		switch {
+		case r == '"' || r == '\\':
+			out.WriteByte('\\')
+			out.WriteRune(r)
+		case r == '?' || !unicode.IsPrint(r) || r == utf8.RuneError:
+			for _, b := range []byte(s[i : i+size]) {
+				fmt.Fprintf(&out, `\%03o`, b)
+			}
+		default:
+			out.WriteRune(r)
+		}
+		i += size
+	}
+	out.WriteByte('"')
+	return out.String()
 }
 
-func (fns CCFuncs) byteStr(x []byte) string {
-	elms := make([]string, len(x))
-	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+func byteStr(x []byte) string {
+	var out strings.Builder
+	for _, b := range x {
+		fmt.Fprintf(&out, `\x%x`, b)
+	}
+	return `"` + out.String() + `"`
+}
+
+// floatExpr formats x so that C++ reads back the same value.
+func floatExpr(x float64, bits int) string {
+	typ, suffix := "double", ""
+	if bits == 32 {
+		typ, suffix = "float", "F"
+	}
+
+	switch {
+	case math.IsNaN(x):
+		return fmt.Sprintf("std::numeric_limits<%s>::quiet_NaN()", typ)
+	case math.IsInf(x, 1):
+		return fmt.Sprintf("std::numeric_limits<%s>::infinity()", typ)
+	case math.IsInf(x, -1):
+		return fmt.Sprintf("-std::numeric_limits<%s>::infinity()", typ)
 	}
 
-	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
+	out := strconv.FormatFloat(x, 'g', -1, bits)
+	if !strings.ContainsAny(out, ".e") {
+		out += ".0"
+	}
+	return out + suffix
+}
+
+func (fns CCFuncs) isBytes(f interface {
+	ProtoType() pgs.ProtoType
+}) bool {
+	return f.ProtoType() == pgs.BytesT
 }
 
 func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
@@ -449,8 +512,6 @@ func (fns CCFuncs) cTypeOfString(s string) string {
 
 func (fns CCFuncs) inKey(ctx shared.RuleContext, x interface{}) string {
 	switch x := x.(type) {
-	case []byte:
-		return fns.byteStr(x)
 	case *durationpb.Duration:
 		return fns.durLit(x)
 	case int32:
@@ -459,7 +520,7 @@ func (fns CCFuncs) inKey(ctx shared.RuleContext, x interface{}) string {
 		}
 		return fns.lit(x)
 	default:
-		return fns.lit(x)
+		return fns.expr(x)
 	}
 }
 
diff --git a/templates/cc/string.go b/templates/cc/string.go
index b058a06..9d9a8ce 100644
--- a/templates/cc/string.go
+++ b/templates/cc/string.go
@@ -76,7 +76,7 @@ const strTpl = `
 
 	{{ if $r.Prefix }}
 	{
-		const std::string prefix = {{ lit $r.GetPrefix }};
+		const std::string prefix = {{ expr $r.GetPrefix }};
 		if (!pgv::IsPrefix(prefix, {{ accessor . }})) {
 			{{ err . "value does not have prefix " (lit $r.GetPrefix) }}
 		}
@@ -85,7 +85,7 @@ const strTpl = `
 
 	{{ if $r.Suffix }}
 	{
-		const std::string suffix = {{ lit $r.GetSuffix }};
+		const std::string suffix = {{ expr $r.GetSuffix }};
 		const std::string& value = {{ accessor . }};
 		if (!pgv::IsSuffix(suffix, value)) {
 			{{ err . "value does not have suffix " (lit $r.GetSuffix) }}
@@ -95,7 +95,7 @@ const strTpl = `
 
 	{{ if $r.Contains }}
 	{
-		if (!pgv::Contains({{ accessor . }}, {{ lit $r.GetContains }})) {
+		if (!pgv::Contains({{ accessor . }}, {{ expr $r.GetContains }})) {
 			{{ err . "value does not contain substring " (lit $r.GetContains) }}
 		}
 	}
@@ -103,7 +103,7 @@ const strTpl = `
 
 	{{ if $r.NotContains }}
 	{
-		if (pgv::Contains({{ accessor . }}, {{ lit $r.GetNotContains }})) {
+		if (pgv::Contains({{ accessor . }}, {{ expr $r.GetNotContains }})) {
 			{{ err . "value contains substring " (lit $r.GetNotContains) }}
 		}
 	}
-- 
2.43.0


From 607d1b4cb6692c3d09f1d00b653d7a926951211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 29/72] fix: do not modify the C++ validator registry while
 validating

---
 validate/validate.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/validate/validate.h b/validate/validate.h
index b859497..c90ec76 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -58,9 +58,11 @@ public:
 
   static bool CheckMessage(const T& m, ValidationMsg* err)
   {
-    auto val = static_cast<Validator<T>*>(validators()[std::type_index(typeid(T))]);
-    if (val) {
-      return val->check_(m, err);
+    // Look up without inserting: this runs concurrently.
+    const auto& all = validators();
+    const auto it = all.find(std::type_index(typeid(T)));
+    if (it != all.end()) {
+      return static_cast<Validator<T>*>(it->second)->check_(m, err);
     }
     return true;
   }
-- 
2.43.0


From b79821dd4b5a37c166317e4be7247d38614a5a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 30/72] fix: reject embedded NULs in C++ IP addresses

---
 validate/validate.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validate/validate.h b/validate/validate.h
index c90ec76..04aab8a 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -97,11 +97,17 @@ static inline bool NotContains(const string& search_in, const string& to_find)
 }
 
 static inline bool IsIpv4(const string& to_validate) {
+	if (to_validate.find('\0') != string::npos) {
+		return false;
+	}
 	struct sockaddr_in sa;
 	return !(inet_pton(AF_INET, to_validate.c_str(), &sa.sin_addr) < 1);
 }
 
 static inline bool IsIpv6(const string& to_validate) {
+  if (to_validate.find('\0') != string::npos) {
+    return false;
+  }
   struct sockaddr_in6 sa_six;
 	return !(inet_pton(AF_INET6, to_validate.c_str(), &sa_six.sin6_addr) < 1);
 }
-- 
2.43.0


From c1a2c5ed5a1e3689624207a821b0f979b1d8cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 31/72] fix: emit infinite and NaN rule constants as valid Go

---
 templates/go/file.go           |  2 ++
 templates/goshared/ltgt.go     | 24 ++++++++++++------------
 templates/goshared/register.go | 12 +++++++++++-
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/templates/go/file.go b/templates/go/file.go
index 81cbf64..10924be 100644
--- a/templates/go/file.go
+++ b/templates/go/file.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 	"net"
 	"net/mail"
 	"net/url"
@@ -29,6 +30,7 @@ var (
 	_ = bytes.MinRead
 	_ = errors.New("")
 	_ = fmt.Print
+	_ = math.Pi
 	_ = utf8.UTFMax
 	_ = (*regexp.Regexp)(nil)
 	_ = (*strings.Reader)(nil)
diff --git a/templates/goshared/ltgt.go b/templates/goshared/ltgt.go
index 06ca63b..3867058 100644
--- a/templates/goshared/ltgt.go
+++ b/templates/goshared/ltgt.go
@@ -4,13 +4,13 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ if $r.Lt }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLt $r.GetGt }}
-				if val := {{ accessor . }};  val <= {{ $r.Gt }} || val >= {{ $r.Lt }} {
+				if val := {{ accessor . }};  val <= {{ lit $r.Gt }} || val >= {{ lit $r.Lt }} {
 					err := {{ err . "value must be inside range (" $r.GetGt ", " $r.GetLt ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val >= {{ $r.Lt }} && val <= {{ $r.Gt }} {
+				if val := {{ accessor . }}; val >= {{ lit $r.Lt }} && val <= {{ lit $r.Gt }} {
 					err := {{ err . "value must be outside range [" $r.GetLt ", " $r.GetGt "]" }}
 					if !all { return err }
 					errors = append(errors, err)
@@ -18,20 +18,20 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{  if gt $r.GetLt $r.GetGte }}
-				if val := {{ accessor . }};  val < {{ $r.Gte }} || val >= {{ $r.Lt }} {
+				if val := {{ accessor . }};  val < {{ lit $r.Gte }} || val >= {{ lit $r.Lt }} {
 					err := {{ err . "value must be inside range [" $r.GetGte ", " $r.GetLt ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val >= {{ $r.Lt }} && val < {{ $r.Gte }} {
+				if val := {{ accessor . }}; val >= {{ lit $r.Lt }} && val < {{ lit $r.Gte }} {
 					err := {{ err . "value must be outside range [" $r.GetLt ", " $r.GetGte ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ end }}
 		{{ else }}
-			if {{ accessor . }} >= {{ $r.Lt }} {
+			if {{ accessor . }} >= {{ lit $r.Lt }} {
 				err := {{ err . "value must be less than " $r.GetLt }}
 				if !all { return err }
 				errors = append(errors, err)
@@ -40,13 +40,13 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ else if $r.Lte }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLte $r.GetGt }}
-				if val := {{ accessor . }};  val <= {{ $r.Gt }} || val > {{ $r.Lte }} {
+				if val := {{ accessor . }};  val <= {{ lit $r.Gt }} || val > {{ lit $r.Lte }} {
 					err := {{ err . "value must be inside range (" $r.GetGt ", " $r.GetLte "]" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val > {{ $r.Lte }} && val <= {{ $r.Gt }} {
+				if val := {{ accessor . }}; val > {{ lit $r.Lte }} && val <= {{ lit $r.Gt }} {
 					err := {{ err . "value must be outside range (" $r.GetLte ", " $r.GetGt "]" }}
 					if !all { return err }
 					errors = append(errors, err)
@@ -54,33 +54,33 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{ if gt $r.GetLte $r.GetGte }}
-				if val := {{ accessor . }};  val < {{ $r.Gte }} || val > {{ $r.Lte }} {
+				if val := {{ accessor . }};  val < {{ lit $r.Gte }} || val > {{ lit $r.Lte }} {
 					err := {{ err . "value must be inside range [" $r.GetGte ", " $r.GetLte "]" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val > {{ $r.Lte }} && val < {{ $r.Gte }} {
+				if val := {{ accessor . }}; val > {{ lit $r.Lte }} && val < {{ lit $r.Gte }} {
 					err := {{ err . "value must be outside range (" $r.GetLte ", " $r.GetGte ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ end }}
 		{{ else }}
-			if {{ accessor . }} > {{ $r.Lte }} {
+			if {{ accessor . }} > {{ lit $r.Lte }} {
 				err := {{ err . "value must be less than or equal to " $r.GetLte }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.Gt }}
-		if {{ accessor . }} <= {{ $r.Gt }} {
+		if {{ accessor . }} <= {{ lit $r.Gt }} {
 			err := {{ err . "value must be greater than " $r.GetGt }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.Gte }}
-		if {{ accessor . }} < {{ $r.Gte }} {
+		if {{ accessor . }} < {{ lit $r.Gte }} {
 			err := {{ err . "value must be greater than or equal to " $r.GetGte }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 2589c21..cf4a73e 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -2,6 +2,7 @@ package goshared
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strings"
 	"text/template"
@@ -190,8 +191,17 @@ func (fns goSharedFuncs) lit(x interface{}) string {
 			els[i] = fns.lit(val.Index(i).Interface())
 		}
 		return fmt.Sprintf("%T{%s}", val.Interface(), strings.Join(els, ", "))
+	case reflect.Float32, reflect.Float64:
+		switch f := val.Float(); {
+		case math.IsNaN(f):
+			return fmt.Sprintf("%s(math.NaN())", val.Kind())
+		case math.IsInf(f, 0):
+			return fmt.Sprintf("%s(math.Inf(%d))", val.Kind(), int(math.Copysign(1, f)))
+		default:
+			return fmt.Sprint(val.Interface())
+		}
 	default:
-		return fmt.Sprint(x)
+		return fmt.Sprint(val.Interface())
 	}
 }
 
-- 
2.43.0


From c3f027b16182ee802d0aa19e01cf834e188fce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 32/72] fix: emit Go length bounds that fit an int

---
 templates/goshared/bytes.go    | 10 +++++-----
 templates/goshared/map.go      |  8 ++++----
 templates/goshared/register.go | 10 ++++++++++
 templates/goshared/repeated.go |  8 ++++----
 templates/goshared/string.go   | 20 ++++++++++----------
 5 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index e2b70f8..536a55c 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -9,13 +9,13 @@ const bytesTpl = `
 
 	{{ if or $r.Len (and $r.MinLen $r.MaxLen (eq $r.GetMinLen $r.GetMaxLen)) }}
 		{{ if $r.Len }}
-			if len({{ accessor . }}) != {{ $r.GetLen }} {
+			if len({{ accessor . }}) != {{ size $r.GetLen }} {
 				err := {{ err . "value length must be " $r.GetLen " bytes" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else }}
-			if len({{ accessor . }}) != {{ $r.GetMinLen }} {
+			if len({{ accessor . }}) != {{ size $r.GetMinLen }} {
 				err := {{ err . "value length must be " $r.GetMinLen " bytes" }}
 				if !all { return err }
 				errors = append(errors, err)
@@ -23,20 +23,20 @@ const bytesTpl = `
 		{{ end }}
 	{{ else if $r.MinLen }}
 		{{ if $r.MaxLen }}
-			if l := len({{ accessor . }}); l < {{ $r.GetMinLen }} || l > {{ $r.GetMaxLen }} {
+			if l := len({{ accessor . }}); l < {{ size $r.GetMinLen }} || l > {{ size $r.GetMaxLen }} {
 				err := {{ err . "value length must be between " $r.GetMinLen " and " $r.GetMaxLen " bytes, inclusive" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else }}
-			if len({{ accessor . }}) < {{ $r.GetMinLen }} {
+			if len({{ accessor . }}) < {{ size $r.GetMinLen }} {
 				err := {{ err . "value length must be at least " $r.GetMinLen " bytes" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.MaxLen }}
-		if len({{ accessor . }}) > {{ $r.GetMaxLen }} {
+		if len({{ accessor . }}) > {{ size $r.GetMaxLen }} {
 			err := {{ err . "value length must be at most " $r.GetMaxLen " bytes" }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/map.go b/templates/goshared/map.go
index 1655ac7..c715206 100644
--- a/templates/goshared/map.go
+++ b/templates/goshared/map.go
@@ -9,26 +9,26 @@ const mapTpl = `
 
 	{{ if $r.GetMinPairs }}
 		{{ if eq $r.GetMinPairs $r.GetMaxPairs }}
-			if len({{ accessor . }}) != {{ $r.GetMinPairs }} {
+			if len({{ accessor . }}) != {{ size $r.GetMinPairs }} {
 				err := {{ err . "value must contain exactly " $r.GetMinPairs " pair(s)" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else if $r.MaxPairs }}
-			if l := len({{ accessor . }}); l < {{ $r.GetMinPairs }} || l > {{ $r.GetMaxPairs }} {
+			if l := len({{ accessor . }}); l < {{ size $r.GetMinPairs }} || l > {{ size $r.GetMaxPairs }} {
 				err := {{ err . "value must contain between " $r.GetMinPairs " and " $r.GetMaxPairs " pairs, inclusive" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else }}
-			if len({{ accessor . }}) < {{ $r.GetMinPairs }} {
+			if len({{ accessor . }}) < {{ size $r.GetMinPairs }} {
 				err := {{ err . "value must contain at least " $r.GetMinPairs " pair(s)" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.MaxPairs }}
-		if len({{ accessor . }}) > {{ $r.GetMaxPairs }} {
+		if len({{ accessor . }}) > {{ size $r.GetMaxPairs }} {
 			err := {{ err . "value must contain no more than " $r.GetMaxPairs " pair(s)" }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index cf4a73e..7cc54e4 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -22,6 +22,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	tpl.Funcs(map[string]interface{}{
 		"accessor":      fns.accessor,
 		"byteStr":       fns.byteStr,
+		"size":          fns.size,
 		"snakeCase":	 fns.snakeCase,
 		"cmt":           pgs.C80,
 		"durGt":         fns.durGt,
@@ -205,6 +206,15 @@ func (fns goSharedFuncs) lit(x interface{}) string {
 	}
 }
 
+// size formats the bound of a length. No length exceeds the largest int64, so
+// bounds beyond it, which do not fit an int, are equivalent to it.
+func (fns goSharedFuncs) size(x uint64) string {
+	if x > math.MaxInt64 {
+		x = math.MaxInt64
+	}
+	return fmt.Sprint(x)
+}
+
 func (fns goSharedFuncs) isBytes(f interface {
 	ProtoType() pgs.ProtoType
 }) bool {
diff --git a/templates/goshared/repeated.go b/templates/goshared/repeated.go
index c5a7ce5..718f8ac 100644
--- a/templates/goshared/repeated.go
+++ b/templates/goshared/repeated.go
@@ -9,26 +9,26 @@ const repTpl = `
 
 	{{ if $r.GetMinItems }}
 		{{ if eq $r.GetMinItems $r.GetMaxItems }}
-			if len({{ accessor . }}) != {{ $r.GetMinItems }} {
+			if len({{ accessor . }}) != {{ size $r.GetMinItems }} {
 				err := {{ err . "value must contain exactly " $r.GetMinItems " item(s)" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else if $r.MaxItems }}
-			if l := len({{ accessor . }}); l < {{ $r.GetMinItems }} || l > {{ $r.GetMaxItems }} {
+			if l := len({{ accessor . }}); l < {{ size $r.GetMinItems }} || l > {{ size $r.GetMaxItems }} {
 				err := {{ err . "value must contain between " $r.GetMinItems " and " $r.GetMaxItems " items, inclusive" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else }}
-			if len({{ accessor . }}) < {{ $r.GetMinItems }} {
+			if len({{ accessor . }}) < {{ size $r.GetMinItems }} {
 				err := {{ err . "value must contain at least " $r.GetMinItems " item(s)" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.MaxItems }}
-		if len({{ accessor . }}) > {{ $r.GetMaxItems }} {
+		if len({{ accessor . }}) > {{ size $r.GetMaxItems }} {
 			err := {{ err . "value must contain no more than " $r.GetMaxItems " item(s)" }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/string.go b/templates/goshared/string.go
index d64ba92..03c86ef 100644
--- a/templates/goshared/string.go
+++ b/templates/goshared/string.go
@@ -12,12 +12,12 @@ const strTpl = `
 
 	{{ if or $r.Len (and $r.MinLen $r.MaxLen (eq $r.GetMinLen $r.GetMaxLen)) }}
 		{{ if $r.Len }}
-		if utf8.RuneCountInString({{ accessor . }}) != {{ $r.GetLen }} {
+		if utf8.RuneCountInString({{ accessor . }}) != {{ size $r.GetLen }} {
 			err := {{ err . "value length must be " $r.GetLen " runes" }}
 			if !all { return err }
 			errors = append(errors, err)
 		{{ else }}
-		if utf8.RuneCountInString({{ accessor . }}) != {{ $r.GetMinLen }} {
+		if utf8.RuneCountInString({{ accessor . }}) != {{ size $r.GetMinLen }} {
 			err := {{ err . "value length must be " $r.GetMinLen " runes" }}
 			if !all { return err }
 			errors = append(errors, err)
@@ -25,20 +25,20 @@ const strTpl = `
 	}
 	{{ else if $r.MinLen }}
 		{{ if $r.MaxLen }}
-			if l := utf8.RuneCountInString({{ accessor . }}); l < {{ $r.GetMinLen }} || l > {{ $r.GetMaxLen }} {
+			if l := utf8.RuneCountInString({{ accessor . }}); l < {{ size $r.GetMinLen }} || l > {{ size $r.GetMaxLen }} {
 				err := {{ err . "value length must be between " $r.GetMinLen " and " $r.GetMaxLen " runes, inclusive" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else }}
-			if utf8.RuneCountInString({{ accessor . }}) < {{ $r.GetMinLen }} {
+			if utf8.RuneCountInString({{ accessor . }}) < {{ size $r.GetMinLen }} {
 				err := {{ err . "value length must be at least " $r.GetMinLen " runes" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.MaxLen }}
-		if utf8.RuneCountInString({{ accessor . }}) > {{ $r.GetMaxLen }} {
+		if utf8.RuneCountInString({{ accessor . }}) > {{ size $r.GetMaxLen }} {
 			err := {{ err . "value length must be at most " $r.GetMaxLen " runes" }}
 			if !all { return err }
 			errors = append(errors, err)
@@ -47,13 +47,13 @@ const strTpl = `
 
 	{{ if or $r.LenBytes (and $r.MinBytes $r.MaxBytes (eq $r.GetMinBytes $r.GetMaxBytes)) }}
 		{{ if $r.LenBytes }}
-			if len({{ accessor . }}) != {{ $r.GetLenBytes }} {
+			if len({{ accessor . }}) != {{ size $r.GetLenBytes }} {
 				err := {{ err . "value length must be " $r.GetLenBytes " bytes" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else }}
-			if len({{ accessor . }}) != {{ $r.GetMinBytes }} {
+			if len({{ accessor . }}) != {{ size $r.GetMinBytes }} {
 				err := {{ err . "value length must be " $r.GetMinBytes " bytes" }}
 				if !all { return err }
 				errors = append(errors, err)
@@ -61,20 +61,20 @@ const strTpl = `
 		{{ end }}
 	{{ else if $r.MinBytes }}
 		{{ if $r.MaxBytes }}
-			if l := len({{ accessor . }}); l < {{ $r.GetMinBytes }} || l > {{ $r.GetMaxBytes }} {
+			if l := len({{ accessor . }}); l < {{ size $r.GetMinBytes }} || l > {{ size $r.GetMaxBytes }} {
 					err := {{ err . "value length must be between " $r.GetMinBytes " and " $r.GetMaxBytes " bytes, inclusive" }}
 					if !all { return err }
 					errors = append(errors, err)
 			}
 		{{ else }}
-			if len({{ accessor . }}) < {{ $r.GetMinBytes }} {
+			if len({{ accessor . }}) < {{ size $r.GetMinBytes }} {
 				err := {{ err . "value length must be at least " $r.GetMinBytes " bytes" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.MaxBytes }}
-		if len({{ accessor . }}) > {{ $r.GetMaxBytes }} {
+		if len({{ accessor . }}) > {{ size $r.GetMaxBytes }} {
 			err := {{ err . "value length must be at most " $r.GetMaxBytes " bytes" }}
 			if !all { return err }
 			errors = append(errors, err)
-- 
2.43.0


From 5d874723460b27f449565057852205c06c842a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 33/72] fix: reject Durations of mixed sign in C++

---
 templates/cc/duration.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 90e7f1e..330457d 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -10,8 +10,9 @@ const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 			if (dur.nanos() > 999999999 || dur.nanos() < -999999999 ||
 			    dur.seconds() > pgv::protobuf::util::TimeUtil::kDurationMaxSeconds ||
-			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds)
-				{{ errCause . "err" "value is not a valid duration" }}
+			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds ||
+			    (dur.seconds() > 0 && dur.nanos() < 0) || (dur.seconds() < 0 && dur.nanos() > 0))
+				{{ err . "value is not a valid duration" }}
 
 
 			{{  if $r.Const }}
-- 
2.43.0


From 4c00de6d093d7220623a5d172ab6c142dc9d1d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 34/72] fix: look NaN up by equality in C++ in and not_in lists

---
 templates/cc/msg.go      |  4 ++--
 templates/cc/register.go | 12 +++++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index d5b07c4..049e0f1 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -57,7 +57,7 @@ bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
 
 const lookupsTpl = `{{ $ctx := . }}
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
-	const std::set<{{ inType . .Rules.In }}> {{ lookup . "InLookup" }} = {
+	const {{ lookupType . .Rules.In }} {{ lookup . "InLookup" }} = {
 			{{- range .Rules.In }}
 				{{ inKey $ctx . }},
 			{{- end }}
@@ -65,7 +65,7 @@ const lookupsTpl = `{{ $ctx := . }}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-	const std::set<{{ inType . .Rules.NotIn }}> {{ lookup . "NotInLookup" }} = {
+	const {{ lookupType . .Rules.NotIn }} {{ lookup . "NotInLookup" }} = {
 			{{- range .Rules.NotIn }}
 				{{ inKey $ctx . }},
 			{{- end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 30e3f9f..78ba362 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -36,10 +36,10 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"expr":          fns.expr,
 		"hasAccessor":   fns.hasAccessor,
 		"inKey":         fns.inKey,
-		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
 		"lit":           fns.lit,
 		"lookup":        fns.lookup,
+		"lookupType":    fns.lookupType,
 		"oneof":         fns.oneofTypeName,
 		"namespaces":    fns.namespaces,
 		"output":        fns.output,
@@ -447,6 +447,16 @@ func (fns CCFuncs) inType(ctx shared.RuleContext, x interface{}) string {
 	}
 }
 
+// lookupType is the set type of an in or not_in list. NaN is not ordered, so
+// floating-point values need a set that compares them for equality.
+func (fns CCFuncs) lookupType(ctx shared.RuleContext, x interface{}) string {
+	t := fns.inType(ctx, x)
+	if t == "float" || t == "double" {
+		return fmt.Sprintf("std::unordered_set<%s>", t)
+	}
+	return fmt.Sprintf("std::set<%s>", t)
+}
+
 // uniqueType is the type protoc stores the items of a repeated field as.
 func (fns CCFuncs) uniqueType(ctx shared.RuleContext) string {
 	t := ctx.Field.Type().Element()
-- 
2.43.0


From 950f2e2c1f43b48b29799aaf68fba5a85ca2d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 35/72] fix: escape the string constants of Java validators

---
 templates/java/any.go      |  4 ++--
 templates/java/register.go | 28 +++++++++++++++++++++-------
 templates/java/string.go   | 14 +++++++-------
 3 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/templates/java/any.go b/templates/java/any.go
index e7ec579..ec7f6e7 100644
--- a/templates/java/any.go
+++ b/templates/java/any.go
@@ -4,14 +4,14 @@ const anyConstTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 {{- if $r.In }}
 		private final String[] {{ constantName . "In" }} = new String[]{
 			{{- range $r.In }}
-			"{{ . }}",
+			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final String[] {{ constantName . "NotIn" }} = new String[]{
 			{{- range $r.NotIn }}
-			"{{ . }}",
+			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}`
diff --git a/templates/java/register.go b/templates/java/register.go
index 86b9a0c..d4a91e5 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 	"text/template"
 	"unicode"
+	"unicode/utf16"
 
 	"github.com/envoyproxy/protoc-gen-validate/templates/shared"
 	"github.com/iancoleman/strcase"
@@ -439,14 +440,27 @@ func (fns javaFuncs) javaTypeLiteralSuffixForPrototype(t pgs.ProtoType) string {
 	}
 }
 
+// javaStringEscape returns a Java string literal holding exactly s.
 func (fns javaFuncs) javaStringEscape(s string) string {
-	s = fmt.Sprintf("%q", s)
-	s = s[1 : len(s)-1]
-	s = strings.Replace(s, `\u00`, `\x`, -1)
-	s = strings.Replace(s, `\x`, `\\x`, -1)
-	// s = strings.Replace(s, `\`, `\\`, -1)
-	s = strings.Replace(s, `"`, `\"`, -1)
-	return `"` + s + `"`
+	var sb strings.Builder
+	sb.WriteByte('"')
+	for _, c := range utf16.Encode([]rune(s)) {
+		switch {
+		case c == '"' || c == '\\':
+			sb.WriteByte('\\')
+			sb.WriteByte(byte(c))
+		case c >= 0x20 && c < 0x7f:
+			sb.WriteByte(byte(c))
+		case c < 0x20:
+			// Unicode escapes are resolved before the literal is parsed, so that
+			// they cannot stand for line terminators.
+			fmt.Fprintf(&sb, `\%03o`, c)
+		default:
+			fmt.Fprintf(&sb, `\u%04x`, c)
+		}
+	}
+	sb.WriteByte('"')
+	return sb.String()
 }
 
 func (fns javaFuncs) camelCase(name pgs.Name) string {
diff --git a/templates/java/string.go b/templates/java/string.go
index 2a11215..9dd6699 100644
--- a/templates/java/string.go
+++ b/templates/java/string.go
@@ -4,14 +4,14 @@ const stringConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.In }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "In" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.In -}}
-				"{{- sprintf "%v" . -}}",
+				{{- javaStringEscape . -}},
 			{{- end -}}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "NotIn" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.NotIn -}}
-				"{{- sprintf "%v" . -}}",
+				{{- javaStringEscape . -}},
 			{{- end -}}
 		};
 {{- end -}}
@@ -24,7 +24,7 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.Const }}
-			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetConst }}");
+			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetConst }});
 {{- end -}}
 {{- if $r.In }}
 			io.envoyproxy.pgv.CollectiveValidation.in("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "In" }});
@@ -54,16 +54,16 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.StringValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
 {{- end -}}
 {{- if $r.Prefix }}
-			io.envoyproxy.pgv.StringValidation.prefix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetPrefix }}");
+			io.envoyproxy.pgv.StringValidation.prefix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetPrefix }});
 {{- end -}}
 {{- if $r.Contains }}
-			io.envoyproxy.pgv.StringValidation.contains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetContains }}");
+			io.envoyproxy.pgv.StringValidation.contains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetContains }});
 {{- end -}}
 {{- if $r.NotContains }}
-			io.envoyproxy.pgv.StringValidation.notContains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetNotContains }}");
+			io.envoyproxy.pgv.StringValidation.notContains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetNotContains }});
 {{- end -}}
 {{- if $r.Suffix }}
-			io.envoyproxy.pgv.StringValidation.suffix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetSuffix }}");
+			io.envoyproxy.pgv.StringValidation.suffix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetSuffix }});
 {{- end -}}
 {{- if $r.GetEmail }}
 			io.envoyproxy.pgv.StringValidation.email("{{ $f.FullyQualifiedName }}", {{ accessor . }});
-- 
2.43.0


From 82e5909ae43923b4895870a47f294bafc5cec742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 36/72] fix: emit the seconds of Java time constants as long

---
 templates/java/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index d4a91e5..e9b1adf 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -480,13 +480,13 @@ func (fns javaFuncs) byteArrayLit(bytes []uint8) string {
 
 func (fns javaFuncs) durLit(dur *durationpb.Duration) string {
 	return fmt.Sprintf(
-		"io.envoyproxy.pgv.TimestampValidation.toDuration(%d,%d)",
+		"io.envoyproxy.pgv.TimestampValidation.toDuration(%dL,%d)",
 		dur.GetSeconds(), dur.GetNanos())
 }
 
 func (fns javaFuncs) tsLit(ts *timestamppb.Timestamp) string {
 	return fmt.Sprintf(
-		"io.envoyproxy.pgv.TimestampValidation.toTimestamp(%d,%d)",
+		"io.envoyproxy.pgv.TimestampValidation.toTimestamp(%dL,%d)",
 		ts.GetSeconds(), ts.GetNanos())
 }
 
-- 
2.43.0


From 31cc9aeb1bb36de61b4828f467f38a44d8c30f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 37/72] fix: compare unsigned values as unsigned in Java and
 emit constants that compile

---
 templates/java/num.go      |  24 ++---
 templates/java/register.go | 191 +++++++++++++++----------------------
 2 files changed, 90 insertions(+), 125 deletions(-)

diff --git a/templates/java/num.go b/templates/java/num.go
index e0a25e9..6899c61 100644
--- a/templates/java/num.go
+++ b/templates/java/num.go
@@ -2,31 +2,31 @@ package java
 
 const numConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.Const }}
-		private final {{ javaTypeFor .}} {{ constantName . "Const" }} = {{ $r.GetConst }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Const" }} = {{ numLit $r.GetConst }};
 {{- end -}}
 {{- if $r.Lt }}
-		private final {{ javaTypeFor .}} {{ constantName . "Lt" }} = {{ $r.GetLt }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Lt" }} = {{ numLit $r.GetLt }};
 {{- end -}}
 {{- if $r.Lte }}
-		private final {{ javaTypeFor .}} {{ constantName . "Lte" }} = {{ $r.GetLte }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Lte" }} = {{ numLit $r.GetLte }};
 {{- end -}}
 {{- if $r.Gt }}
-		private final {{ javaTypeFor .}} {{ constantName . "Gt" }} = {{ $r.GetGt }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Gt" }} = {{ numLit $r.GetGt }};
 {{- end -}}
 {{- if $r.Gte }}
-		private final {{ javaTypeFor .}} {{ constantName . "Gte" }} = {{ $r.GetGte }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Gte" }} = {{ numLit $r.GetGte }};
 {{- end -}}
 {{- if $r.In }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "In" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.In -}}
-				{{- sprintf "%v" . -}}{{ javaTypeLiteralSuffixFor $ }},
+				{{- numLit . }},
 			{{- end -}}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "NotIn" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.NotIn -}}
-				{{- sprintf "%v" . -}}{{ javaTypeLiteralSuffixFor $ }},
+				{{- numLit . }},
 			{{- end -}}
 		};
 {{- end -}}`
@@ -39,19 +39,19 @@ const numTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if and (or $r.Lt $r.Lte) (or $r.Gt $r.Gte)}}
-			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, {{ comparatorFor . }});
 {{- else -}}
 {{- if $r.Lt }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, {{ comparatorFor . }});
 {{- end -}}
 {{- if $r.Lte }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, {{ comparatorFor . }});
 {{- end -}}
 {{- if $r.Gt }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, {{ comparatorFor . }});
 {{- end -}}
 {{- if $r.Gte }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, {{ comparatorFor . }});
 {{- end -}}
 {{- end -}}
 {{- if $r.In }}
diff --git a/templates/java/register.go b/templates/java/register.go
index e9b1adf..f055839 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -3,7 +3,9 @@ package java
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"os"
+	"strconv"
 	"strings"
 	"text/template"
 	"unicode"
@@ -33,29 +35,30 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	fns := javaFuncs{pgsgo.InitContext(params)}
 
 	tpl.Funcs(map[string]interface{}{
-		"accessor":                 fns.accessor,
-		"byteArrayLit":             fns.byteArrayLit,
-		"camelCase":                fns.camelCase,
-		"classNameFile":            classNameFile,
-		"classNameMessage":         classNameMessage,
-		"durLit":                   fns.durLit,
-		"fieldName":                fns.fieldName,
-		"javaPackage":              javaPackage,
-		"javaStringEscape":         fns.javaStringEscape,
-		"javaTypeFor":              fns.javaTypeFor,
-		"javaTypeLiteralSuffixFor": fns.javaTypeLiteralSuffixFor,
-		"hasAccessor":              fns.hasAccessor,
-		"oneof":                    fns.oneofTypeName,
-		"sprintf":                  fmt.Sprintf,
-		"simpleName":               fns.Name,
-		"tsLit":                    fns.tsLit,
-		"qualifiedName":            fns.qualifiedName,
-		"isOfFileType":             fns.isOfFileType,
-		"isOfMessageType":          fns.isOfMessageType,
-		"isOfStringType":           fns.isOfStringType,
-		"unwrap":                   fns.unwrap,
-		"renderConstants":          fns.renderConstants(tpl),
-		"constantName":             fns.constantName,
+		"accessor":         fns.accessor,
+		"byteArrayLit":     fns.byteArrayLit,
+		"camelCase":        fns.camelCase,
+		"classNameFile":    classNameFile,
+		"classNameMessage": classNameMessage,
+		"durLit":           fns.durLit,
+		"fieldName":        fns.fieldName,
+		"javaPackage":      javaPackage,
+		"javaStringEscape": fns.javaStringEscape,
+		"javaTypeFor":      fns.javaTypeFor,
+		"comparatorFor":    fns.comparatorFor,
+		"numLit":           fns.numLit,
+		"hasAccessor":      fns.hasAccessor,
+		"oneof":            fns.oneofTypeName,
+		"sprintf":          fmt.Sprintf,
+		"simpleName":       fns.Name,
+		"tsLit":            fns.tsLit,
+		"qualifiedName":    fns.qualifiedName,
+		"isOfFileType":     fns.isOfFileType,
+		"isOfMessageType":  fns.isOfMessageType,
+		"isOfStringType":   fns.isOfStringType,
+		"unwrap":           fns.unwrap,
+		"renderConstants":  fns.renderConstants(tpl),
+		"constantName":     fns.constantName,
 	})
 
 	template.Must(tpl.Parse(fileTpl))
@@ -329,114 +332,76 @@ func (fns javaFuncs) fieldName(ctx shared.RuleContext) string {
 }
 
 func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
-	t := ctx.Field.Type()
-
-	// Map key and value types
-	if t.IsMap() {
-		switch ctx.AccessorOverride {
-		case "key":
-			return fns.javaTypeForProtoType(t.Key().ProtoType())
-		case "value":
-			return fns.javaTypeForProtoType(t.Element().ProtoType())
-		}
-	}
-
-	if t.IsEmbed() {
-		if embed := t.Embed(); embed.IsWellKnown() {
-			switch embed.WellKnownType() {
-			case pgs.AnyWKT:
-				return "String"
-			case pgs.DurationWKT:
-				return "com.google.protobuf.Duration"
-			case pgs.TimestampWKT:
-				return "com.google.protobuf.Timestamp"
-			case pgs.Int32ValueWKT, pgs.UInt32ValueWKT:
-				return "Integer"
-			case pgs.Int64ValueWKT, pgs.UInt64ValueWKT:
-				return "Long"
-			case pgs.DoubleValueWKT:
-				return "Double"
-			case pgs.FloatValueWKT:
-				return "Float"
-			}
-		}
-	}
-
-	if t.IsRepeated() {
-		if t.ProtoType() == pgs.MessageT {
-			return fns.qualifiedName(t.Element().Embed())
-		} else if t.ProtoType() == pgs.EnumT {
-			return fns.qualifiedName(t.Element().Enum())
-		}
-	}
-
-	if t.IsEnum() {
-		return fns.qualifiedName(t.Enum())
-	}
-
-	return fns.javaTypeForProtoType(t.ProtoType())
-}
-
-func (fns javaFuncs) javaTypeForProtoType(t pgs.ProtoType) string {
-
-	switch t {
-	case pgs.Int32T, pgs.UInt32T, pgs.SInt32, pgs.Fixed32T, pgs.SFixed32:
+	switch ctx.Typ {
+	case "int32", "uint32", "sint32", "fixed32", "sfixed32":
 		return "Integer"
-	case pgs.Int64T, pgs.UInt64T, pgs.SInt64, pgs.Fixed64T, pgs.SFixed64:
+	case "int64", "uint64", "sint64", "fixed64", "sfixed64":
 		return "Long"
-	case pgs.DoubleT:
+	case "double":
 		return "Double"
-	case pgs.FloatT:
+	case "float":
 		return "Float"
-	case pgs.BoolT:
+	case "bool":
 		return "Boolean"
-	case pgs.StringT:
+	case "string", "any":
 		return "String"
-	case pgs.BytesT:
+	case "bytes":
 		return "com.google.protobuf.ByteString"
+	case "duration":
+		return "com.google.protobuf.Duration"
+	case "timestamp":
+		return "com.google.protobuf.Timestamp"
+	case "enum":
+		if t := ctx.Field.Type(); t.IsRepeated() || t.IsMap() {
+			return fns.qualifiedName(t.Element().Enum())
+		}
+		return fns.qualifiedName(ctx.Field.Type().Enum())
 	default:
 		return "Object"
 	}
 }
 
-func (fns javaFuncs) javaTypeLiteralSuffixFor(ctx shared.RuleContext) string {
-	t := ctx.Field.Type()
-
-	if t.IsMap() {
-		switch ctx.AccessorOverride {
-		case "key":
-			return fns.javaTypeLiteralSuffixForPrototype(t.Key().ProtoType())
-		case "value":
-			return fns.javaTypeLiteralSuffixForPrototype(t.Element().ProtoType())
-		}
+// comparatorFor returns the order of the values of a numeric type. Java has no
+// unsigned types: their values are held by the signed ones.
+func (fns javaFuncs) comparatorFor(ctx shared.RuleContext) string {
+	switch ctx.Typ {
+	case "uint32", "fixed32":
+		return "Integer::compareUnsigned"
+	case "uint64", "fixed64":
+		return "Long::compareUnsigned"
+	default:
+		return "java.util.Comparator.naturalOrder()"
 	}
+}
 
-	if t.IsEmbed() {
-		if embed := t.Embed(); embed.IsWellKnown() {
-			switch embed.WellKnownType() {
-			case pgs.Int64ValueWKT, pgs.UInt64ValueWKT:
-				return "L"
-			case pgs.FloatValueWKT:
-				return "F"
-			case pgs.DoubleValueWKT:
-				return "D"
-			}
-		}
+// numLit returns the literal of a numeric rule constant.
+func (fns javaFuncs) numLit(v interface{}) string {
+	switch x := v.(type) {
+	case uint32:
+		return fmt.Sprintf("%d", int32(x))
+	case int64:
+		return fmt.Sprintf("%dL", x)
+	case uint64:
+		return fmt.Sprintf("%dL", int64(x))
+	case float32:
+		return fns.floatLit(float64(x), 32, "Float", "F")
+	case float64:
+		return fns.floatLit(x, 64, "Double", "D")
+	default:
+		return fmt.Sprint(v)
 	}
-
-	return fns.javaTypeLiteralSuffixForPrototype(t.ProtoType())
 }
 
-func (fns javaFuncs) javaTypeLiteralSuffixForPrototype(t pgs.ProtoType) string {
-	switch t {
-	case pgs.Int64T, pgs.UInt64T, pgs.SInt64, pgs.Fixed64T, pgs.SFixed64:
-		return "L"
-	case pgs.FloatT:
-		return "F"
-	case pgs.DoubleT:
-		return "D"
+func (fns javaFuncs) floatLit(x float64, bits int, class, suffix string) string {
+	switch {
+	case math.IsNaN(x):
+		return class + ".NaN"
+	case math.IsInf(x, 1):
+		return class + ".POSITIVE_INFINITY"
+	case math.IsInf(x, -1):
+		return class + ".NEGATIVE_INFINITY"
 	default:
-		return ""
+		return strconv.FormatFloat(x, 'g', -1, bits) + suffix
 	}
 }
 
-- 
2.43.0


From 06f33d3e7067bea25e507085b98bbc8b1afccdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 38/72] fix: enforce max_items and max_pairs of zero in Java

---
 templates/java/map.go      | 2 +-
 templates/java/repeated.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/map.go b/templates/java/map.go
index 632d7eb..7d960d8 100644
--- a/templates/java/map.go
+++ b/templates/java/map.go
@@ -14,7 +14,7 @@ const mapTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetMinPairs }}
 			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinPairs }});
 {{- end -}}
-{{- if $r.GetMaxPairs }}
+{{- if $r.MaxPairs }}
 			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxPairs }});
 {{- end -}}
 {{- if $r.GetNoSparse }}
diff --git a/templates/java/repeated.go b/templates/java/repeated.go
index 776b407..0ceb9b2 100644
--- a/templates/java/repeated.go
+++ b/templates/java/repeated.go
@@ -9,7 +9,7 @@ const repeatedTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetMinItems }}
 			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinItems }});
 {{- end -}}
-{{- if $r.GetMaxItems }}
+{{- if $r.MaxItems }}
 			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxItems }});
 {{- end -}}
 {{- if $r.GetUnique }}
-- 
2.43.0


From aa9349e7168a6cb81bcd525e7ed54092e12c0534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 39/72] fix: require skipped messages in Java

---
 templates/java/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/message.go b/templates/java/message.go
index a9b7a62..b176101 100644
--- a/templates/java/message.go
+++ b/templates/java/message.go
@@ -1,10 +1,10 @@
 package java
 
 const messageTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+	{{- template "required" . }}
 	{{- if .MessageRules.GetSkip }}
 			// skipping validation for {{ $f.Name }}
 	{{- else -}}
-		{{- template "required" . }}
 		{{- if (isOfMessageType $f) }}
 			// Validate {{ $f.Name }}
 			if ({{ hasAccessor . }}) index.validatorFor({{ accessor . }}).assertValid({{ accessor . }});
-- 
2.43.0


From 23f8055dd43a5799ac6b092ba66f085ca0646361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 40/72] fix: report a Java enum that differs from an undeclared
 constant

---
 .../src/main/java/io/envoyproxy/pgv/ConstantValidation.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ConstantValidation.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ConstantValidation.java
index 4a14e67..cb0acc8 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ConstantValidation.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ConstantValidation.java
@@ -9,7 +9,7 @@ public final class ConstantValidation {
 
     public static <T> void constant(String field, T value, T expected) throws ValidationException {
         if (!value.equals(expected)) {
-            throw new ValidationException(field, value, "must equal " + expected.toString());
+            throw new ValidationException(field, value, "must equal " + expected);
         }
     }
 }
-- 
2.43.0


From ba00e57115bbeec2d8f1442711969dffd997064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 41/72] fix: fall back for messages without validator in
 ReflectiveValidatorIndex

---
 .../main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
index f9f7778..3426680 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
@@ -48,6 +48,9 @@ public final class ReflectiveValidatorIndex implements ValidatorIndex {
         String validatorClassName = enclosingClass.getName() + "Validator";
         Class validatorClass = clazz.getClassLoader().loadClass(validatorClassName);
         ValidatorImpl impl = (ValidatorImpl) validatorClass.getDeclaredMethod("validatorFor", Class.class).invoke(null, clazz);
+        if (impl == null) {
+            return fallbackIndex.validatorFor(clazz);
+        }
 
         return proto -> impl.assertValid(proto, ReflectiveValidatorIndex.this);
     }
-- 
2.43.0


From adcb6a9f5301845293c6782fa2f376d2458bf57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 42/72] fix: apply the fallback validator of
 ExplicitValidatorIndex

---
 .../src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
index 828d13e..f1051d3 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
@@ -33,7 +33,7 @@ public final class ExplicitValidatorIndex implements ValidatorIndex {
     @SuppressWarnings("unchecked")
     public <T> Validator<T> validatorFor(Class clazz) {
         return VALIDATOR_INDEX.computeIfAbsent(clazz, c ->
-                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c))
+                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c).assertValid(p))
                         .assertValid(proto, ExplicitValidatorIndex.this));
     }
 }
-- 
2.43.0


From 82dff53508027969934f8a30494abf3b9810bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 43/72] fix: do not overflow in the Java within check

---
 .../main/java/io/envoyproxy/pgv/TimestampValidation.java   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
index ff51948..67298b9 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
@@ -13,11 +13,16 @@ public final class TimestampValidation {
 
     public static void within(String field, Timestamp value, Duration duration, Timestamp when) throws ValidationException {
         Duration between = Timestamps.between(when, value);
-        if (Long.compare(Math.abs(Durations.toNanos(between)), Math.abs(Durations.toNanos(duration))) == 1) {
+        if (Durations.compare(abs(between), abs(duration)) > 0) {
             throw new ValidationException(field, value, "value must be within " + Durations.toString(duration) + " of " + Timestamps.toString(when));
         }
     }
 
+    private static Duration abs(Duration value) {
+        Duration zero = Duration.getDefaultInstance();
+        return Durations.compare(value, zero) < 0 ? Durations.subtract(zero, value) : value;
+    }
+
     /**
      * Converts {@code seconds} and {@code nanos} to a protobuf {@code Timestamp}.
      */
-- 
2.43.0


From 4914c0eb4d6af499e869a239967c0ee797963ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 44/72] fix: drop the messages after an invalid one in
 ValidatingServerInterceptor

---
 .../io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
index 60b5147..5da08aa 100644
--- a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
+++ b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
@@ -25,6 +25,9 @@ public class ValidatingServerInterceptor implements ServerInterceptor {
 
             @Override
             public void onMessage(ReqT message) {
+                if (aborted) {
+                    return;
+                }
                 try {
                     index.validatorFor(message.getClass()).assertValid(message);
                     super.onMessage(message);
-- 
2.43.0


From fd6a8459352e594c02e73a7d21022679ca28917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 45/72] fix: name Java accessors and classes like protoc does

---
 templates/java/file.go     |  2 +-
 templates/java/register.go | 97 +++++++++++++-------------------------
 2 files changed, 35 insertions(+), 64 deletions(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index 567831c..86d3e36 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -28,7 +28,7 @@ public class {{ classNameFile . }}Validator {
 @SuppressWarnings("all")
 public class {{ classNameMessage .}}Validator implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{
 	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
-		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
+		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ classNameMessage . }}Validator();
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
diff --git a/templates/java/register.go b/templates/java/register.go
index f055839..2da2b15 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -158,30 +158,14 @@ func classNameFile(f pgs.File) string {
 
 	protoName := pgs.FilePath(f.Name().String()).BaseName()
 
-	className := sanitizeClassName(protoName)
+	className := upperCamelCase(protoName)
 	className = appendOuterClassName(className, f)
 
 	return className
 }
 
 func classNameMessage(m pgs.Message) string {
-	className := m.Name().String()
-	// This is really silly, but when the multiple files option is true, protoc puts underscores in file names.
-	// When multiple files is false, underscores are stripped. Short of rewriting all the name sanitization
-	// logic for java, using "UnderscoreUnderscoreUnderscore" is an escape sequence seems to work with an extremely
-	// small likelihood of name conflict.
-	className = strings.Replace(className, "_", "UnderscoreUnderscoreUnderscore", -1)
-	className = sanitizeClassName(className)
-	className = strings.Replace(className, "UnderscoreUnderscoreUnderscore", "_", -1)
-	return className
-}
-
-func sanitizeClassName(className string) string {
-	className = makeInvalidClassnameCharactersUnderscores(className)
-	className = underscoreBetweenConsecutiveUppercase(className)
-	className = strcase.ToCamel(strcase.ToSnake(className))
-	className = upperCaseAfterNumber(className)
-	return className
+	return m.Name().String()
 }
 
 func javaPackage(file pgs.File) string {
@@ -222,52 +206,30 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	return entity.Name().String()
 }
 
-// Replace invalid identifier characters with an underscore
-func makeInvalidClassnameCharactersUnderscores(name string) string {
-	var sb string
+// upperCamelCase names accessors and outer classes like protoc: letters after
+// the first keep their case, and the one after a digit or a separator is upper.
+func upperCamelCase(name string) string {
+	var sb strings.Builder
+	upper := true
 	for _, c := range name {
 		switch {
-		case c >= '0' && c <= '9':
-			sb += string(c)
 		case c >= 'a' && c <= 'z':
-			sb += string(c)
+			if upper {
+				c = unicode.ToUpper(c)
+			}
+			sb.WriteRune(c)
+			upper = false
 		case c >= 'A' && c <= 'Z':
-			sb += string(c)
+			sb.WriteRune(c)
+			upper = false
+		case c >= '0' && c <= '9':
+			sb.WriteRune(c)
+			upper = true
 		default:
-			sb += "_"
-		}
-	}
-	return sb
-}
-
-func upperCaseAfterNumber(name string) string {
-	var sb string
-	var p rune
-
-	for _, c := range name {
-		if unicode.IsDigit(p) {
-			sb += string(unicode.ToUpper(c))
-		} else {
-			sb += string(c)
-		}
-		p = c
-	}
-	return sb
-}
-
-func underscoreBetweenConsecutiveUppercase(name string) string {
-	var sb string
-	var p rune
-
-	for _, c := range name {
-		if unicode.IsUpper(p) && unicode.IsUpper(c) {
-			sb += "_" + string(c)
-		} else {
-			sb += string(c)
+			upper = true
 		}
-		p = c
 	}
-	return sb
+	return sb.String()
 }
 
 func appendOuterClassName(outerClassName string, file pgs.File) string {
@@ -306,7 +268,7 @@ func (fns javaFuncs) accessor(ctx shared.RuleContext) string {
 }
 
 func (fns javaFuncs) fieldAccessor(f pgs.Field) string {
-	fieldName := strcase.ToCamel(f.Name().String())
+	fieldName := accessorName(f)
 	if f.Type().IsMap() {
 		fieldName += "Map"
 	}
@@ -314,17 +276,26 @@ func (fns javaFuncs) fieldAccessor(f pgs.Field) string {
 		fieldName += "List"
 	}
 
-	fieldName = upperCaseAfterNumber(fieldName)
 	return fmt.Sprintf("proto.get%s()", fieldName)
 }
 
+// accessorName is what protoc puts after get and has. It keeps clear of the
+// methods that every message has.
+func accessorName(f pgs.Field) string {
+	name := upperCamelCase(f.Name().String())
+	switch name {
+	case "Class", "DefaultInstanceForType", "ParserForType", "SerializedSize", "AllFields",
+		"DescriptorForType", "InitializationErrorString", "UnknownFields", "CachedSize":
+		name += "_"
+	}
+	return name
+}
+
 func (fns javaFuncs) hasAccessor(ctx shared.RuleContext) string {
 	if ctx.AccessorOverride != "" {
 		return "true"
 	}
-	fiedlName := strcase.ToCamel(ctx.Field.Name().String())
-	fiedlName = upperCaseAfterNumber(fiedlName)
-	return "proto.has" + fiedlName + "()"
+	return "proto.has" + accessorName(ctx.Field) + "()"
 }
 
 func (fns javaFuncs) fieldName(ctx shared.RuleContext) string {
@@ -429,7 +400,7 @@ func (fns javaFuncs) javaStringEscape(s string) string {
 }
 
 func (fns javaFuncs) camelCase(name pgs.Name) string {
-	return strcase.ToCamel(name.String())
+	return upperCamelCase(name.String())
 }
 
 func (fns javaFuncs) byteArrayLit(bytes []uint8) string {
-- 
2.43.0


From 88d115175dde4a15247cce9e13e5a8871042f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 46/72] fix: do not validate ignored messages of
 java_multiple_files

---
 templates/java/file.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/java/file.go b/templates/java/file.go
index 86d3e36..5a3cdd5 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -28,7 +28,9 @@ public class {{ classNameFile . }}Validator {
 @SuppressWarnings("all")
 public class {{ classNameMessage .}}Validator implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{
 	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
+		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ classNameMessage . }}Validator();
+		{{- end }}
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
-- 
2.43.0


From ad2751993661c10de9a283fafb2c89686dea8b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 47/72] fix: qualify no Java names in files without a package

---
 templates/java/file.go     |  2 +-
 templates/java/register.go | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index 5a3cdd5..e26c54a 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -3,7 +3,7 @@ package java
 const fileTpl = `// Code generated by protoc-gen-validate. DO NOT EDIT.
 // source: {{ .File.InputPath }}
 
-package {{ javaPackage .File }};
+{{ with javaPackage .File }}package {{ . }};{{ end }}
 
 {{ if isOfFileType . }}
 @SuppressWarnings("all")
diff --git a/templates/java/register.go b/templates/java/register.go
index 2da2b15..501c47f 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -183,10 +183,10 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 		name := javaPackage(file)
 		if file.Descriptor().GetOptions() != nil {
 			if !file.Descriptor().GetOptions().GetJavaMultipleFiles() {
-				name += ("." + classNameFile(file))
+				name = joinNames(name, classNameFile(file))
 			}
 		} else {
-			name += ("." + classNameFile(file))
+			name = joinNames(name, classNameFile(file))
 		}
 		return name
 	}
@@ -194,18 +194,26 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	message, isMessage := entity.(pgs.Message)
 	if isMessage && message.Parent() != nil {
 		// recurse
-		return fns.qualifiedName(message.Parent()) + "." + entity.Name().String()
+		return joinNames(fns.qualifiedName(message.Parent()), entity.Name().String())
 	}
 
 	enum, isEnum := entity.(pgs.Enum)
 	if isEnum && enum.Parent() != nil {
 		// recurse
-		return fns.qualifiedName(enum.Parent()) + "." + entity.Name().String()
+		return joinNames(fns.qualifiedName(enum.Parent()), entity.Name().String())
 	}
 
 	return entity.Name().String()
 }
 
+// joinNames qualifies name, which may be in the unnamed package.
+func joinNames(scope, name string) string {
+	if scope == "" {
+		return name
+	}
+	return scope + "." + name
+}
+
 // upperCamelCase names accessors and outer classes like protoc: letters after
 // the first keep their case, and the one after a digit or a separator is upper.
 func upperCamelCase(name string) string {
-- 
2.43.0


From d780de282d6a74e2a2668d104f7ff3da7f7828d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 48/72] fix: emit Java length bounds that fit an int

---
 templates/java/bytes.go    |  6 +++---
 templates/java/map.go      |  4 ++--
 templates/java/register.go | 10 ++++++++++
 templates/java/repeated.go |  4 ++--
 templates/java/string.go   | 12 ++++++------
 5 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/templates/java/bytes.go b/templates/java/bytes.go
index 49f37e4..73f3198 100644
--- a/templates/java/bytes.go
+++ b/templates/java/bytes.go
@@ -39,13 +39,13 @@ const bytesTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if $r.Len }}
-			io.envoyproxy.pgv.BytesValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetLen }});
+			io.envoyproxy.pgv.BytesValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetLen }});
 {{- end -}}
 {{- if $r.MinLen }}
-			io.envoyproxy.pgv.BytesValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinLen }});
+			io.envoyproxy.pgv.BytesValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetMinLen }});
 {{- end -}}
 {{- if $r.MaxLen }}
-			io.envoyproxy.pgv.BytesValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxLen }});
+			io.envoyproxy.pgv.BytesValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetMaxLen }});
 {{- end -}}
 {{- if $r.Pattern }}
 			io.envoyproxy.pgv.BytesValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
diff --git a/templates/java/map.go b/templates/java/map.go
index 7d960d8..59c0d96 100644
--- a/templates/java/map.go
+++ b/templates/java/map.go
@@ -12,10 +12,10 @@ const mapTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.GetMinPairs }}
-			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinPairs }});
+			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetMinPairs }});
 {{- end -}}
 {{- if $r.MaxPairs }}
-			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxPairs }});
+			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetMaxPairs }});
 {{- end -}}
 {{- if $r.GetNoSparse }}
 			io.envoyproxy.pgv.MapValidation.noSparse("{{ $f.FullyQualifiedName }}", {{ accessor . }});
diff --git a/templates/java/register.go b/templates/java/register.go
index 501c47f..5f67ea0 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -47,6 +47,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"javaTypeFor":      fns.javaTypeFor,
 		"comparatorFor":    fns.comparatorFor,
 		"numLit":           fns.numLit,
+		"lenLit":           fns.lenLit,
 		"hasAccessor":      fns.hasAccessor,
 		"oneof":            fns.oneofTypeName,
 		"sprintf":          fmt.Sprintf,
@@ -353,6 +354,15 @@ func (fns javaFuncs) comparatorFor(ctx shared.RuleContext) string {
 	}
 }
 
+// lenLit returns the literal of a length or a count: no Java collection holds
+// more than Integer.MAX_VALUE elements.
+func (fns javaFuncs) lenLit(n uint64) string {
+	if n > math.MaxInt32 {
+		n = math.MaxInt32
+	}
+	return strconv.FormatUint(n, 10)
+}
+
 // numLit returns the literal of a numeric rule constant.
 func (fns javaFuncs) numLit(v interface{}) string {
 	switch x := v.(type) {
diff --git a/templates/java/repeated.go b/templates/java/repeated.go
index 0ceb9b2..5bc993d 100644
--- a/templates/java/repeated.go
+++ b/templates/java/repeated.go
@@ -7,10 +7,10 @@ const repeatedTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.GetMinItems }}
-			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinItems }});
+			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetMinItems }});
 {{- end -}}
 {{- if $r.MaxItems }}
-			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxItems }});
+			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetMaxItems }});
 {{- end -}}
 {{- if $r.GetUnique }}
 			io.envoyproxy.pgv.RepeatedValidation.unique("{{ $f.FullyQualifiedName }}", {{ accessor . }});
diff --git a/templates/java/string.go b/templates/java/string.go
index 9dd6699..545226a 100644
--- a/templates/java/string.go
+++ b/templates/java/string.go
@@ -33,22 +33,22 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.CollectiveValidation.notIn("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "NotIn" }});
 {{- end -}}
 {{- if $r.Len }}
-			io.envoyproxy.pgv.StringValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetLen }});
+			io.envoyproxy.pgv.StringValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetLen }});
 {{- end -}}
 {{- if $r.MinLen }}
-			io.envoyproxy.pgv.StringValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinLen }});
+			io.envoyproxy.pgv.StringValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetMinLen }});
 {{- end -}}
 {{- if $r.MaxLen }}
-			io.envoyproxy.pgv.StringValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxLen }});
+			io.envoyproxy.pgv.StringValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetMaxLen }});
 {{- end -}}
 {{- if $r.LenBytes }}
-			io.envoyproxy.pgv.StringValidation.lenBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetLenBytes }});
+			io.envoyproxy.pgv.StringValidation.lenBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetLenBytes }});
 {{- end -}}
 {{- if $r.MinBytes }}
-			io.envoyproxy.pgv.StringValidation.minBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinBytes }});
+			io.envoyproxy.pgv.StringValidation.minBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetMinBytes }});
 {{- end -}}
 {{- if $r.MaxBytes }}
-			io.envoyproxy.pgv.StringValidation.maxBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxBytes }});
+			io.envoyproxy.pgv.StringValidation.maxBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetMaxBytes }});
 {{- end -}}
 {{- if $r.Pattern }}
 			io.envoyproxy.pgv.StringValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
-- 
2.43.0


From bb1c84beeb14b707ece5b97f7dd18fce2e638fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 49/72] fix: quote text constants in the Python validator

---
 python/protoc_gen_validate/validator.py | 54 +++++++++++++------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index bdca00b..2935314 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -134,8 +134,8 @@ def _has_field(message_pb, property_name):
 
 def const_template(option_value, name):
     const_tmpl = """{%- if str(o.string) and o.string.HasField('const') -%}
-    if {{ name }} != \"{{ o.string['const'] }}\":
-        raise ValidationFailed(\"{{ name }} not equal to {{ o.string['const'] }}\")
+    if {{ name }} != {{ repr(o.string['const']) }}:
+        raise ValidationFailed({{ repr(name ~ ' not equal to ' ~ o.string['const']) }})
     {%- elif str(o.bool) and o.bool['const'] != "" -%}
     if {{ name }} != {{ o.bool['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bool['const'] }}\")
@@ -145,28 +145,28 @@ def const_template(option_value, name):
     {%- elif str(o.bytes) and o.bytes.HasField('const') -%}
         {% if sys.version_info[0] >= 3 %}
     if {{ name }} != {{ o.bytes['const'] }}:
-        raise ValidationFailed(\"{{ name }} not equal to {{ o.bytes['const'] }}\")
+        raise ValidationFailed({{ repr(name ~ ' not equal to ' ~ o.bytes['const']) }})
         {% else %}
     if {{ name }} != b\"{{ o.bytes['const'].encode('string_escape') }}\":
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bytes['const'].encode('string_escape') }}\")
         {% endif %}
     {%- endif -%}
     """
-    return Template(const_tmpl).render(sys=sys, o=option_value, name=name, str=str)
+    return Template(const_tmpl).render(sys=sys, o=option_value, name=name, str=str, repr=repr)
 
 
 def in_template(value, name):
     in_tmpl = """
     {%- if value['in'] %}
     if {{ name }} not in {{ value['in'] }}:
-        raise ValidationFailed(\"{{ name }} not in {{ value['in'] }}\")
+        raise ValidationFailed({{ repr(name ~ ' not in ' ~ value['in']) }})
     {%- endif -%}
     {%- if value['not_in'] %}
     if {{ name }} in {{ value['not_in'] }}:
-        raise ValidationFailed(\"{{ name }} in {{ value['not_in'] }}\")
+        raise ValidationFailed({{ repr(name ~ ' in ' ~ value['not_in']) }})
     {%- endif -%}
     """
-    return Template(in_tmpl).render(value=value, name=name)
+    return Template(in_tmpl).render(value=value, name=name, repr=repr)
 
 
 def string_template(option_value, name):
@@ -213,24 +213,24 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} length is greater than {{ s['max_bytes'] }}\")
     {%- endif -%}
     {%- if s['pattern'] %}
-    if re.search(r\'{{ s['pattern'] }}\', {{ name }}) is None:
-        raise ValidationFailed(\"{{ name }} pattern does not match {{ s['pattern'] }}\")
+    if re.search({{ repr(s['pattern']) }}, {{ name }}) is None:
+        raise ValidationFailed({{ repr(name ~ ' pattern does not match ' ~ s['pattern']) }})
     {%- endif -%}
     {%- if s['prefix'] %}
-    if not {{ name }}.startswith(\"{{ s['prefix'] }}\"):
-        raise ValidationFailed(\"{{ name }} does not start with prefix {{ s['prefix'] }}\")
+    if not {{ name }}.startswith({{ repr(s['prefix']) }}):
+        raise ValidationFailed({{ repr(name ~ ' does not start with prefix ' ~ s['prefix']) }})
     {%- endif -%}
     {%- if s['suffix'] %}
-    if not {{ name }}.endswith(\"{{ s['suffix'] }}\"):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ s['suffix'] }}\")
+    if not {{ name }}.endswith({{ repr(s['suffix']) }}):
+        raise ValidationFailed({{ repr(name ~ ' does not end with suffix ' ~ s['suffix']) }})
     {%- endif -%}
     {%- if s['contains'] %}
-    if not \"{{ s['contains'] }}\" in {{ name }}:
-        raise ValidationFailed(\"{{ name }} does not contain {{ s['contains'] }}\")
+    if not {{ repr(s['contains']) }} in {{ name }}:
+        raise ValidationFailed({{ repr(name ~ ' does not contain ' ~ s['contains']) }})
     {%- endif -%}
     {%- if s['not_contains'] %}
-    if \"{{ s['not_contains'] }}\" in {{ name }}:
-        raise ValidationFailed(\"{{ name }} contains {{ s['not_contains'] }}\")
+    if {{ repr(s['not_contains']) }} in {{ name }}:
+        raise ValidationFailed({{ repr(name ~ ' contains ' ~ s['not_contains']) }})
     {%- endif -%}
     {%- if s['email'] %}
     if not _validateEmail({{ name }}):
@@ -283,7 +283,8 @@ def string_template(option_value, name):
     {%- endif -%}
     {% endfilter %}
     """
-    return Template(str_templ).render(o=option_value, name=name, const_template=const_template, in_template=in_template)
+    return Template(str_templ).render(o=option_value, name=name, const_template=const_template, in_template=in_template,
+                                      repr=repr)
 
 
 def required_template(value, name):
@@ -682,7 +683,7 @@ def any_template(option_value, name, repeated=False):
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
         if {{ name }}.type_url not in {{ o['in'] }}:
-            raise ValidationFailed(\"{{ name }} not in {{ o['in'] }}\")
+            raise ValidationFailed({{ repr(name ~ ' not in ' ~ o['in']) }})
     {%- endif %}
     {%- if o['not_in'] %}
     {% if repeated %}
@@ -691,11 +692,11 @@ def any_template(option_value, name, repeated=False):
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
         if {{ name }}.type_url in {{ o['not_in'] }}:
-            raise ValidationFailed(\"{{ name }} in {{ o['not_in'] }}\")
+            raise ValidationFailed({{ repr(name ~ ' in ' ~ o['not_in']) }})
     {%- endif %}
     """
     return Template(any_tmpl).render(
-        o=option_value.any, name=name, required_template=required_template, repeated=repeated)
+        o=option_value.any, name=name, required_template=required_template, repeated=repeated, repr=repr)
 
 
 def bytes_template(option_value, name):
@@ -750,7 +751,7 @@ def bytes_template(option_value, name):
     {% if b['contains'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ b['contains'] }} in {{ name }}:
-        raise ValidationFailed(\"{{ name }} does not contain {{ b['contains'] }}\")
+        raise ValidationFailed({{ repr(name ~ ' does not contain ' ~ b['contains']) }})
         {% else %}
     if not b\"{{ b['contains'].encode('string_escape') }}\" in {{ name }}:
         raise ValidationFailed(\"{{ name }} does not contain \")
@@ -759,7 +760,7 @@ def bytes_template(option_value, name):
     {% if b['prefix'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ name }}.startswith({{ b['prefix'] }}):
-        raise ValidationFailed(\"{{ name }} does not start with prefix {{ b['prefix'] }}\")
+        raise ValidationFailed({{ repr(name ~ ' does not start with prefix ' ~ b['prefix']) }})
         {% else %}
     if not {{name}}.startswith(b\"{{ b['prefix'].encode('string_escape') }}\"):
         raise ValidationFailed(\"{{ name }} does not start with prefix {{ b['prefix'].encode('string_escape') }}\")
@@ -768,16 +769,17 @@ def bytes_template(option_value, name):
     {% if b['suffix'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ name }}.endswith({{ b['suffix'] }}):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ b['suffix'] }}\")
+        raise ValidationFailed({{ repr(name ~ ' does not end with suffix ' ~ b['suffix']) }})
         {% else %}
     if not {{name}}.endswith(b\"{{ b['suffix'].encode('string_escape') }}\"):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ b['suffix'] }}\")
+        raise ValidationFailed({{ repr(name ~ ' does not end with suffix ' ~ b['suffix']) }})
         {% endif %}
     {% endif %}
     {% endfilter %}
     """
     return Template(bytes_tmpl).render(sys=sys, o=option_value, name=name,
-                                       const_template=const_template, in_template=in_template, b=option_value.bytes)
+                                       const_template=const_template, in_template=in_template, b=option_value.bytes,
+                                       repr=repr)
 
 
 def switcher_template(accessor, name, field, map=False):
-- 
2.43.0


From 1f7fa53b04ed96141145567b793f5759d2001306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 50/72] fix: match Python bytes patterns as written

---
 python/protoc_gen_validate/validator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 2935314..7362066 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -741,8 +741,8 @@ def bytes_template(option_value, name):
     {%- endif -%}
     {% if b['pattern'] %}
         {% if sys.version_info[0] >= 3%}
-    if re.search({{ b['pattern'].encode('unicode-escape') }}, {{ name }}) is None:
-        raise ValidationFailed(\"{{ name }} pattern does not match b['pattern'].encode('unicode-escape')\")
+    if re.search({{ b['pattern'].encode('utf-8') }}, {{ name }}) is None:
+        raise ValidationFailed({{ repr(name ~ ' pattern does not match ' ~ b['pattern']) }})
         {% else %}
     if re.search(b\"{{ b['pattern'].encode('unicode-escape') }}\", {{ name }}) is None:
         raise ValidationFailed(\"{{ name }} pattern does not match \")
-- 
2.43.0


From 5eabf918018ef343bf96e5585f8b3bbad853eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 51/72] fix: reject ',' and trailing newlines in Python HTTP
 headers

---
 python/protoc_gen_validate/validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 7362066..be683fa 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -16,9 +16,9 @@ printer = ""
 # Well known regex mapping.
 regex_map = {
     "UNKNOWN": "",
-    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+-.^_|~\x60]+$',
-    "HTTP_HEADER_VALUE": r'^[^\u0000-\u0008\u000A-\u001F\u007F]*$',
-    "HEADER_STRING": r'^[^\u0000\u000A\u000D]*$'
+    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+\-.^_|~\x60]+\Z',
+    "HTTP_HEADER_VALUE": r'^[^\u0000-\u0008\u000A-\u001F\u007F]*\Z',
+    "HEADER_STRING": r'^[^\u0000\u000A\u000D]*\Z'
 }
 
 
-- 
2.43.0


From 4275ca33bb0debef9c03236beaa58fd077efb460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 52/72] fix: apply zero-valued rules in Python

---
 python/protoc_gen_validate/validator.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index be683fa..2c5cde1 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -139,7 +139,7 @@ def const_template(option_value, name):
     {%- elif str(o.bool) and o.bool['const'] != "" -%}
     if {{ name }} != {{ o.bool['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bool['const'] }}\")
-    {%- elif str(o.enum) and o.enum['const'] -%}
+    {%- elif str(o.enum) and o.enum.HasField('const') -%}
     if {{ name }} != {{ o.enum['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.enum['const'] }}\")
     {%- elif str(o.bytes) and o.bytes.HasField('const') -%}
@@ -188,7 +188,7 @@ def string_template(option_value, name):
     {% filter indent(i,True) %}
     {{ const_template(o, name) -}}
     {{ in_template(o.string, name) -}}
-    {%- if s['len'] %}
+    {%- if s.HasField('len') %}
     if len({{ name }}) != {{ s['len'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ s['len'] }}\")
     {%- endif -%}
@@ -196,11 +196,11 @@ def string_template(option_value, name):
     if len({{ name }}) < {{ s['min_len'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ s['min_len'] }}\")
     {%- endif -%}
-    {%- if s['max_len'] %}
+    {%- if s.HasField('max_len') %}
     if len({{ name }}) > {{ s['max_len'] }}:
         raise ValidationFailed(\"{{ name }} length is more than {{ s['max_len'] }}\")
     {%- endif -%}
-    {%- if s['len_bytes'] %}
+    {%- if s.HasField('len_bytes') %}
     if byte_len({{ name }}) != {{ s['len_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ s['len_bytes'] }}\")
     {%- endif -%}
@@ -208,7 +208,7 @@ def string_template(option_value, name):
     if byte_len({{ name }}) < {{ s['min_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ s['min_bytes'] }}\")
     {%- endif -%}
-    {%- if s['max_bytes'] %}
+    {%- if s.HasField('max_bytes') %}
     if byte_len({{ name }}) > {{ s['max_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length is greater than {{ s['max_bytes'] }}\")
     {%- endif -%}
@@ -228,7 +228,7 @@ def string_template(option_value, name):
     if not {{ repr(s['contains']) }} in {{ name }}:
         raise ValidationFailed({{ repr(name ~ ' does not contain ' ~ s['contains']) }})
     {%- endif -%}
-    {%- if s['not_contains'] %}
+    {%- if s.HasField('not_contains') %}
     if {{ repr(s['not_contains']) }} in {{ name }}:
         raise ValidationFailed({{ repr(name ~ ' contains ' ~ s['not_contains']) }})
     {%- endif -%}
@@ -709,7 +709,7 @@ def bytes_template(option_value, name):
     {% filter indent(i,True) %}
     {{ const_template(o, name) -}}
     {{ in_template(o.bytes, name) -}}
-    {%- if b['len'] %}
+    {%- if b.HasField('len') %}
     if len({{ name }}) != {{ b['len'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ b['len'] }}\")
     {%- endif -%}
@@ -717,7 +717,7 @@ def bytes_template(option_value, name):
     if len({{ name }}) < {{ b['min_len'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ b['min_len'] }}\")
     {%- endif -%}
-    {%- if b['max_len'] %}
+    {%- if b.HasField('max_len') %}
     if len({{ name }}) > {{ b['max_len'] }}:
         raise ValidationFailed(\"{{ name }} length is more than {{ b['max_len'] }}\")
     {%- endif -%}
@@ -847,7 +847,7 @@ def repeated_template(option_value, name, field):
     if len({{ name }}) < {{ o.repeated['min_items'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at least {{ o.repeated['min_items'] }} items\")
     {%- endif %}
-    {%- if o and o.repeated['max_items'] %}
+    {%- if o and o.repeated.HasField('max_items') %}
     if len({{ name }}) > {{ o.repeated['max_items'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at most {{ o.repeated['max_items'] }} items\")
     {%- endif %}
@@ -896,7 +896,7 @@ def map_template(option_value, name, field):
     if len({{ name }}) < {{ o.map['min_pairs'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at least {{ o.map['min_pairs'] }} items\")
     {%- endif %}
-    {%- if o and o.map['max_pairs'] %}
+    {%- if o and o.map.HasField('max_pairs') %}
     if len({{ name }}) > {{ o.map['max_pairs'] }}:
         raise ValidationFailed(\"{{ name }} can contain at most {{ o.map['max_pairs'] }} items\")
     {%- endif %}
-- 
2.43.0


From 28f2c18fc672b895df4e9e79b9339ff229ed7813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 53/72] fix: honour ignore_empty: false in Python

---
 python/protoc_gen_validate/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 2c5cde1..817dc8a 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -327,7 +327,7 @@ def bool_template(option_value, name):
 def num_template(option_value, name, num):
     num_tmpl = """
     {% set i = 0 %}
-    {%- if num.HasField('ignore_empty') -%}
+    {%- if num['ignore_empty'] -%}
     if {{ name }}:
     {% set i = 4 %}
     {%- endif -%}
-- 
2.43.0


From cd0559e3caecc3465a40fd37f578e40c40c44d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:35 +0000
Subject: [PATCH 54/72] fix: give ignore_empty and wrapper bodies a statement
 in Python

---
 python/protoc_gen_validate/validator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 817dc8a..45c385e 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -183,6 +183,7 @@ def string_template(option_value, name):
     {% set i = 0 %}
     {%- if s['ignore_empty'] -%}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -329,6 +330,7 @@ def num_template(option_value, name, num):
     {% set i = 0 %}
     {%- if num['ignore_empty'] -%}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -619,6 +621,7 @@ def wrapper_template(option_value, name, repeated=False):
     {% else %}
     if p.HasField(\"{{ name[2:] }}\"):
     {% endif %}
+        pass
         {%- if str(option_value.float) %}
         {{- num_template(option_value, name + ".value", option_value.float)|indent(4,True) -}}
         {% endif -%}
@@ -704,6 +707,7 @@ def bytes_template(option_value, name):
     {% set i = 0 %}
     {%- if b['ignore_empty'] -%}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -840,6 +844,7 @@ def repeated_template(option_value, name, field):
     {% set i = 0 %}
     {%- if o and o.repeated['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -889,6 +894,7 @@ def map_template(option_value, name, field):
     {% set i = 0 %}
     {%- if o and o.map['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
-- 
2.43.0


From 5c5c86d335341c0c25796378b11948146c72ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:35 +0000
Subject: [PATCH 55/72] fix: start Python string rules on a line of their own

---
 python/protoc_gen_validate/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 45c385e..74f88a5 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -179,7 +179,7 @@ def string_template(option_value, name):
         else:
             option_value.string.pattern = regex_map[regex_name]
     str_templ = """
-    {%- set s = o.string -%}
+    {%- set s = o.string %}
     {% set i = 0 %}
     {%- if s['ignore_empty'] -%}
     if {{ name }}:
-- 
2.43.0


From 118624d4dfc70d43c279ae8a79dfa86490046c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:35 +0000
Subject: [PATCH 56/72] fix: do not read a missing rule field in Python

---
 python/protoc_gen_validate/validator.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 74f88a5..9c8c4a8 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -994,8 +994,6 @@ def rule_type(field):
                     return repeated_template(option_value, name, field)
                 elif str(option_value.map):
                     return map_template(option_value, name, field)
-                elif str(option_value.required):
-                    return required_template(option_value, name)
     if field.message_type:
         for option_descriptor, option_value in field.GetOptions().ListFields():
             if option_descriptor.full_name == "validate.rules":
@@ -1015,8 +1013,6 @@ def rule_type(field):
                     return repeated_template(option_value, name, field)
                 elif str(option_value.map):
                     return map_template(option_value, name, field)
-                elif str(option_value.required):
-                    return required_template(option_value, name)
         if field.message_type.full_name.startswith("google.protobuf"):
             return ""
         elif is_map(field):
-- 
2.43.0


From a2147f76e4ae96293da25b9e2727aeb59090f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:35 +0000
Subject: [PATCH 57/72] fix: apply message rules of Python items and values to
 the element

---
 python/protoc_gen_validate/validator.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 9c8c4a8..0ad99d0 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -299,7 +299,7 @@ def required_template(value, name):
 
 def message_template(option_value, name, repeated=False):
     message_tmpl = """{%- if m.message %}
-    {{- required_template(m.message, name) }}
+    {{- '' if repeated else required_template(m.message, name) }}
     {%- endif -%}
     {%- if m.message and m.message['skip'] %}
     # Skipping validation for {{ name }}
@@ -309,7 +309,7 @@ def message_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        embedded = validate(p.{{ name }})
+        embedded = validate({{ name }})
         if embedded is not None:
             return embedded
     {%- endif -%}
@@ -415,7 +415,7 @@ def dur_lit(dur):
 
 def duration_template(option_value, name, repeated=False):
     dur_tmpl = """
-    {{- required_template(o.duration, name) }}
+    {{- '' if repeated else required_template(o.duration, name) }}
     {% if repeated %}
     if {{ name }}:
     {% else %}
@@ -503,7 +503,7 @@ def duration_template(option_value, name, repeated=False):
 
 def timestamp_template(option_value, name, repeated=False):
     timestamp_tmpl = """
-    {{- required_template(o.timestamp, name) }}
+    {{- '' if repeated else required_template(o.timestamp, name) }}
     {% if repeated %}
     if {{ name }}:
     {% else %}
@@ -678,7 +678,7 @@ def enum_template(option_value, name, field):
 
 def any_template(option_value, name, repeated=False):
     any_tmpl = """
-    {{- required_template(o, name) }}
+    {{- '' if repeated else required_template(o, name) }}
     {%- if o['in'] %}
     {% if repeated %}
     if {{ name }}:
@@ -959,7 +959,7 @@ def rule_type(field):
                 if str(option_value.string):
                     return string_template(option_value, name)
                 elif str(option_value.message):
-                    return message_template(option_value, field.name)
+                    return message_template(option_value, name)
                 elif str(option_value.bool):
                     return bool_template(option_value, name)
                 elif str(option_value.float):
@@ -1006,7 +1006,7 @@ def rule_type(field):
                         str(option_value.bool) or str(option_value.string) or str(option_value.bytes):
                     return wrapper_template(option_value, name)
                 elif str(option_value.message) != "":
-                    return message_template(option_value, field.name)
+                    return message_template(option_value, name)
                 elif str(option_value.any):
                     return any_template(option_value, name)
                 elif str(option_value.repeated):
@@ -1020,7 +1020,7 @@ def rule_type(field):
         elif field.label == 3:
             return repeated_template(None, name, field)
         else:
-            return message_template(None, field.name)
+            return message_template(None, name)
     return ""
 
 
-- 
2.43.0


From 3cf2004c944a75e5ee399cb787e8368e25ea2ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 58/72] fix: apply rules of wrapper items and values to what
 they wrap in Python

---
 python/protoc_gen_validate/validator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 0ad99d0..60ad9a9 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -13,6 +13,10 @@ from validate_email import validate_email
 
 printer = ""
 
+# Messages that wrap a scalar.
+wrapper_types = frozenset("google.protobuf." + kind + "Value" for kind in (
+    "Double", "Float", "Int64", "UInt64", "Int32", "UInt32", "Bool", "String", "Bytes"))
+
 # Well known regex mapping.
 regex_map = {
     "UNKNOWN": "",
@@ -787,6 +791,9 @@ def bytes_template(option_value, name):
 
 
 def switcher_template(accessor, name, field, map=False):
+    element = field.message_type.fields[1] if map else field
+    if element.message_type and element.message_type.full_name in wrapper_types and not str(accessor.message):
+        name = name + ".value"
     switcher_tmpl = """
     {%- if str(accessor.float) %}
     {{- num_template(accessor, name, accessor.float)|indent(4,True) -}}
-- 
2.43.0


From e998181974939efeb57452aa24a440386d230b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 59/72] fix: apply bytes rules to Python items and values

---
 python/protoc_gen_validate/validator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 60ad9a9..f311fdb 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -823,6 +823,8 @@ def switcher_template(accessor, name, field, map=False):
     {{- bool_template(accessor, name)|indent(4,True) -}}
     {%- elif str(accessor.string) %}
     {{- string_template(accessor, name)|indent(4,True) -}}
+    {%- elif str(accessor.bytes) %}
+    {{- bytes_template(accessor, name)|indent(4,True) -}}
     {%- elif str(accessor.enum) and map %}
     {{- enum_template(accessor, name, field.message_type.fields[1])|indent(4,True) -}}
     {%- elif str(accessor.enum) and not map %}
@@ -841,7 +843,7 @@ def switcher_template(accessor, name, field, map=False):
     """
     return Template(switcher_tmpl).render(accessor=accessor, name=name, str=str, num_template=num_template,
                                           bool_template=bool_template, string_template=string_template,
-                                          enum_template=enum_template, duration_template=duration_template,
+                                          bytes_template=bytes_template, enum_template=enum_template, duration_template=duration_template,
                                           timestamp_template=timestamp_template, any_template=any_template,
                                           message_template=message_template, field=field, map=map)
 
-- 
2.43.0


From 393247bd32607d18593d4ad992e8620ebff6ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 60/72] fix: validate message values of Python maps that have
 rules

---
 python/protoc_gen_validate/validator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index f311fdb..2a8282a 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -948,6 +948,9 @@ def map_template(option_value, name, field):
         {%- endif %}
         {%- set values = o.map['values'] -%}
         {{ switcher_template(values, name +'[key]', field, True) }}
+        {%- if field.message_type.fields[1].message_type and not values.message.skip %}
+        validate({{ name }}[key])
+        {%- endif %}
         pass
     {%- elif field.message_type.fields[1].message_type %}
     for key in {{ name }}:
-- 
2.43.0


From 1592cee9039281c36f8ae2ad19b823fc44d78c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 61/72] fix: do not mistake messages with a key and a value for
 Python maps

---
 python/protoc_gen_validate/validator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 2a8282a..450a875 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -894,8 +894,7 @@ def repeated_template(option_value, name, field):
 
 
 def is_map(field):
-    return field.label == 3 and field.message_type and len(field.message_type.fields) == 2 and \
-        field.message_type.fields[0].name == "key" and field.message_type.fields[1].name == "value"
+    return field.label == 3 and field.message_type and field.message_type.GetOptions().map_entry
 
 
 def map_template(option_value, name, field):
-- 
2.43.0


From 89348faeb71d8be371e403bd556baf4cd9f24b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 62/72] fix: accept only the RFC 4122 form of a UUID in Python

---
 python/protoc_gen_validate/validator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 450a875..84264f6 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -2,7 +2,6 @@ import re
 import struct
 import sys
 import time
-import uuid
 from functools import lru_cache
 from ipaddress import IPv4Address, IPv6Address, ip_address
 from urllib import parse as urlparse
@@ -25,6 +24,9 @@ regex_map = {
     "HEADER_STRING": r'^[^\u0000\u000A\u000D]*\Z'
 }
 
+# The textual form of RFC 4122.
+uuid_pattern = re.compile(r'[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}\Z')
+
 
 class ValidationFailed(Exception):
     pass
@@ -281,9 +283,7 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} is not a valid uri ref\")
     {%- endif -%}
     {%- if s['uuid'] %}
-    try:
-        uuid.UUID({{ name }})
-    except ValueError:
+    if uuid_pattern.match({{ name }}) is None:
         raise ValidationFailed(\"{{ name }} is not a valid UUID\")
     {%- endif -%}
     {% endfilter %}
-- 
2.43.0


From 5f8344ab3689e46172abda5440956ac78758dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 63/72] fix: compare Python Durations and Timestamps at
 nanosecond precision

---
 python/protoc_gen_validate/validator.py | 74 ++++++++++++++-----------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 84264f6..3ceffd7 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -412,6 +412,14 @@ def dur_arr(dur):
     return arr
 
 
+def dur_ns(dur):
+    return dur.seconds * 10**9 + dur.nanos
+
+
+def dur_ns_arr(dur):
+    return [dur_ns(val) for val in dur]
+
+
 def dur_lit(dur):
     value = dur.seconds + (10**-9 * dur.nanos)
     return value
@@ -425,35 +433,35 @@ def duration_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        dur = {{ name }}.seconds + round((10**-9 * {{ name }}.nanos), 9)
+        dur = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set dur = o.duration -%}
         {%- if dur.HasField('lt') %}
-        lt = {{ dur_lit(dur['lt']) }}
+        lt = {{ dur_ns(dur['lt']) }}
         {% endif %}
         {%- if dur.HasField('lte') %}
-        lte = {{ dur_lit(dur['lte']) }}
+        lte = {{ dur_ns(dur['lte']) }}
         {% endif %}
         {%- if dur.HasField('gt') %}
-        gt = {{ dur_lit(dur['gt']) }}
+        gt = {{ dur_ns(dur['gt']) }}
         {% endif %}
         {%- if dur.HasField('gte') %}
-        gte = {{ dur_lit(dur['gte']) }}
+        gte = {{ dur_ns(dur['gte']) }}
         {% endif %}
         {%- if dur.HasField('const') %}
-        if dur != {{ dur_lit(dur['const']) }}:
+        if dur != {{ dur_ns(dur['const']) }}:
             raise ValidationFailed(\"{{ name }} is not equal to {{ dur_lit(dur['const']) }}\")
         {%- endif -%}
         {%- if dur['in'] %}
-        if dur not in {{ dur_arr(dur['in']) }}:
+        if dur not in {{ dur_ns_arr(dur['in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(dur['in']) }}\")
         {%- endif -%}
         {%- if dur['not_in'] %}
-        if dur in {{ dur_arr(dur['not_in']) }}:
+        if dur in {{ dur_ns_arr(dur['not_in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(dur['not_in']) }}\")
         {%- endif -%}
         {%- if dur.HasField('lt') %}
             {%- if dur.HasField('gt') %}
-                {%- if dur_lit(dur['lt']) > dur_lit(dur['gt']) %}
+                {%- if dur_ns(dur['lt']) > dur_ns(dur['gt']) %}
         if dur <= gt or dur >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gt']) }}\")
                 {%- else -%}
@@ -461,7 +469,7 @@ def duration_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lt']) }}\")
                 {%- endif -%}
             {%- elif dur.HasField('gte') %}
-                {%- if dur_lit(dur['lt']) > dur_lit(dur['gte']) %}
+                {%- if dur_ns(dur['lt']) > dur_ns(dur['gte']) %}
         if dur < gte or dur >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gte']) }}\")
                 {%- else -%}
@@ -474,7 +482,7 @@ def duration_template(option_value, name, repeated=False):
             {%- endif -%}
         {%- elif dur.HasField('lte') %}
             {%- if dur.HasField('gt') %}
-                {%- if dur_lit(dur['lte']) > dur_lit(dur['gt']) %}
+                {%- if dur_ns(dur['lte']) > dur_ns(dur['gt']) %}
         if dur <= gt or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gt']) }}\")
                 {%- else -%}
@@ -482,7 +490,7 @@ def duration_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lte']) }}\")
                 {%- endif -%}
             {%- elif dur.HasField('gte') %}
-                {%- if dur_lit(dur['lte']) > dur_lit(dur['gte']) %}
+                {%- if dur_ns(dur['lte']) > dur_ns(dur['gte']) %}
         if dur < gte or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gte']) }}\")
                 {%- else -%}
@@ -502,7 +510,8 @@ def duration_template(option_value, name, repeated=False):
         {%- endif -%}
     """
     return Template(dur_tmpl).render(o=option_value, name=name, required_template=required_template,
-                                     dur_lit=dur_lit, dur_arr=dur_arr, repeated=repeated)
+                                     dur_lit=dur_lit, dur_arr=dur_arr, dur_ns=dur_ns,
+                                     dur_ns_arr=dur_ns_arr, repeated=repeated)
 
 
 def timestamp_template(option_value, name, repeated=False):
@@ -513,35 +522,35 @@ def timestamp_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        ts = {{ name }}.seconds + round((10**-9 * {{ name }}.nanos), 9)
+        ts = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set ts = o.timestamp -%}
         {%- if ts.HasField('lt') %}
-        lt = {{ dur_lit(ts['lt']) }}
+        lt = {{ dur_ns(ts['lt']) }}
         {% endif -%}
         {%- if ts.HasField('lte') %}
-        lte = {{ dur_lit(ts['lte']) }}
+        lte = {{ dur_ns(ts['lte']) }}
         {% endif -%}
         {%- if ts.HasField('gt') %}
-        gt = {{ dur_lit(ts['gt']) }}
+        gt = {{ dur_ns(ts['gt']) }}
         {% endif -%}
         {%- if ts.HasField('gte') %}
-        gte = {{ dur_lit(ts['gte']) }}
+        gte = {{ dur_ns(ts['gte']) }}
         {% endif -%}
         {%- if ts.HasField('const') %}
-        if ts != {{ dur_lit(ts['const']) }}:
+        if ts != {{ dur_ns(ts['const']) }}:
             raise ValidationFailed(\"{{ name }} is not equal to {{ dur_lit(ts['const']) }}\")
         {% endif %}
         {%- if ts['in'] %}
-        if ts not in {{ dur_arr(ts['in']) }}:
+        if ts not in {{ dur_ns_arr(ts['in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(ts['in']) }}\")
         {%- endif %}
         {%- if ts['not_in'] %}
-        if ts in {{ dur_arr(ts['not_in']) }}:
+        if ts in {{ dur_ns_arr(ts['not_in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(ts['not_in']) }}\")
         {%- endif %}
         {%- if ts.HasField('lt') %}
             {%- if ts.HasField('gt') %}
-                {%- if dur_lit(ts['lt']) > dur_lit(ts['gt']) %}
+                {%- if dur_ns(ts['lt']) > dur_ns(ts['gt']) %}
         if ts <= gt or ts >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gt']) }}\")
                 {%- else -%}
@@ -549,7 +558,7 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lt']) }}\")
                 {%- endif -%}
             {%- elif ts.HasField('gte') %}
-                {%- if dur_lit(ts['lt']) > dur_lit(ts['gte']) %}
+                {%- if dur_ns(ts['lt']) > dur_ns(ts['gte']) %}
         if ts < gte or ts >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gte']) }}\")
                 {%- else -%}
@@ -562,7 +571,7 @@ def timestamp_template(option_value, name, repeated=False):
             {%- endif -%}
         {%- elif ts.HasField('lte') %}
             {%- if ts.HasField('gt') %}
-                {%- if dur_lit(ts['lte']) > dur_lit(ts['gt']) %}
+                {%- if dur_ns(ts['lte']) > dur_ns(ts['gt']) %}
         if ts <= gt or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gt']) }}\")
                 {%- else -%}
@@ -570,7 +579,7 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lte']) }}\")
                 {%- endif -%}
             {%- elif ts.HasField('gte') %}
-                {%- if dur_lit(ts['lte']) > dur_lit(ts['gte']) %}
+                {%- if dur_ns(ts['lte']) > dur_ns(ts['gte']) %}
         if ts < gte or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gte']) }}\")
                 {%- else -%}
@@ -588,9 +597,9 @@ def timestamp_template(option_value, name, repeated=False):
         if ts < gte:
             raise ValidationFailed(\"{{ name }} is not greater than or equal to {{ dur_lit(ts['gte']) }}\")
         {%- elif ts.HasField('lt_now') %}
-        now = time.time()
+        now = time.time_ns()
             {%- if ts.HasField('within') %}
-        within = {{ dur_lit(ts['within']) }}
+        within = {{ dur_ns(ts['within']) }}
         if ts >= now or ts <= now - within:
             raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
             {%- else %}
@@ -598,9 +607,9 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not lesser than now\")
             {%- endif -%}
         {%- elif ts.HasField('gt_now') %}
-        now = time.time()
+        now = time.time_ns()
             {%- if ts.HasField('within') %}
-        within = {{ dur_lit(ts['within']) }}
+        within = {{ dur_ns(ts['within']) }}
         if ts <= now or ts >= now + within:
             raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
             {%- else %}
@@ -608,14 +617,15 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not greater than now\")
             {%- endif -%}
         {%- elif ts.HasField('within') %}
-        now = time.time()
-        within = {{ dur_lit(ts['within']) }}
+        now = time.time_ns()
+        within = {{ dur_ns(ts['within']) }}
         if ts >= now + within or ts <= now - within:
              raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
         {%- endif -%}
     """
     return Template(timestamp_tmpl).render(o=option_value, name=name, required_template=required_template,
-                                           dur_lit=dur_lit, dur_arr=dur_arr, repeated=repeated)
+                                           dur_lit=dur_lit, dur_arr=dur_arr, dur_ns=dur_ns,
+                                           dur_ns_arr=dur_ns_arr, repeated=repeated)
 
 
 def wrapper_template(option_value, name, repeated=False):
-- 
2.43.0


From 4cdcdf7da4d9c53b68e6533706aadc176bc8d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 64/72] fix: define the names of infinite and NaN constants in
 Python

---
 python/protoc_gen_validate/validator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 3ceffd7..cc11424 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -27,6 +27,10 @@ regex_map = {
 # The textual form of RFC 4122.
 uuid_pattern = re.compile(r'[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}\Z')
 
+# The names that infinite and NaN constants have in generated code.
+inf = float("inf")
+nan = float("nan")
+
 
 class ValidationFailed(Exception):
     pass
-- 
2.43.0


From bd0204aad8b43fef70121c5d960e137ff818a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 65/72] fix: check URIs and URI references against RFC 3986 in
 Python

---
 python/protoc_gen_validate/validator.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index cc11424..6ef8bd8 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -131,6 +131,23 @@ def _validateEmail(addr):
     return _validateHostName(parts[1])
 
 
+# The characters of RFC 3986.
+_uri_chars = re.compile(r"(?:[a-zA-Z0-9\-._~:/?#\[\]@!$&'()*+,;=]|%[0-9a-fA-F]{2})*\Z")
+_uri_scheme = re.compile(r"[a-zA-Z][a-zA-Z0-9+.\-]*:")
+
+
+def _validateUriRef(uri, absolute=False):
+    if not _uri_chars.match(uri):
+        return False
+    if _uri_scheme.match(uri) is None and (absolute or ":" in re.split("[/?#]", uri)[0]):
+        return False
+    try:
+        urlparse.urlparse(uri).port
+    except ValueError:
+        return False
+    return True
+
+
 def _has_field(message_pb, property_name):
     # NOTE: As of proto3, HasField() only works for message fields, not for
     #       singular (non-message) fields. First try to use HasField and
@@ -277,13 +294,11 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} is not a valid ipv6\")
     {%- endif %}
     {%- if s['uri'] %}
-    url = urlparse.urlparse({{ name }})
-    if not all([url.scheme, url.netloc, url.path]):
+    if not _validateUriRef({{ name }}, absolute=True):
         raise ValidationFailed(\"{{ name }} is not a valid uri\")
     {%- endif %}
     {%- if s['uri_ref'] %}
-    url = urlparse.urlparse({{ name }})
-    if not all([url.scheme, url.path]) and url.fragment:
+    if not _validateUriRef({{ name }}):
         raise ValidationFailed(\"{{ name }} is not a valid uri ref\")
     {%- endif -%}
     {%- if s['uuid'] %}
-- 
2.43.0


From 9c0ce0becdc6e7313da42bee78573ef3d45cd301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 66/72] fix: reject zones in Python IP addresses

---
 python/protoc_gen_validate/validator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 6ef8bd8..2406ad7 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -131,6 +131,12 @@ def _validateEmail(addr):
     return _validateHostName(parts[1])
 
 
+def _without_zone(addr):
+    if "%" in addr:
+        raise ValueError("an address with a zone")
+    return addr
+
+
 # The characters of RFC 3986.
 _uri_chars = re.compile(r"(?:[a-zA-Z0-9\-._~:/?#\[\]@!$&'()*+,;=]|%[0-9a-fA-F]{2})*\Z")
 _uri_scheme = re.compile(r"[a-zA-Z][a-zA-Z0-9+.\-]*:")
@@ -270,14 +276,14 @@ def string_template(option_value, name):
     {%- endif -%}
     {%- if s['address'] %}
     try:
-        ip_address({{ name }})
+        ip_address(_without_zone({{ name }}))
     except ValueError:
         if not _validateHostName({{ name }}):
             raise ValidationFailed(\"{{ name }} is not a valid address\")
     {%- endif -%}
     {%- if s['ip'] %}
     try:
-        ip_address({{ name }})
+        ip_address(_without_zone({{ name }}))
     except ValueError:
         raise ValidationFailed(\"{{ name }} is not a valid ip\")
     {%- endif -%}
@@ -289,7 +295,7 @@ def string_template(option_value, name):
     {%- endif -%}
     {%- if s['ipv6'] %}
     try:
-        IPv6Address({{ name }})
+        IPv6Address(_without_zone({{ name }}))
     except ValueError:
         raise ValidationFailed(\"{{ name }} is not a valid ipv6\")
     {%- endif %}
-- 
2.43.0


From 749f818ec5438f7315b1b49b52a4281fd750e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:50 +0000
Subject: [PATCH 67/72] fix: validate Python fields named like keywords

---
 python/protoc_gen_validate/validator.py | 35 ++++++++++++++++---------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 2406ad7..07bf032 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -1,3 +1,4 @@
+import keyword
 import re
 import struct
 import sys
@@ -165,6 +166,11 @@ def _has_field(message_pb, property_name):
         return property_name in all_fields
 
 
+def field_name(name):
+    """The field that generated code refers to by name."""
+    return name.split("'")[1] if name.startswith("getattr(") else name.split('.')[-1]
+
+
 def const_template(option_value, name):
     const_tmpl = """{%- if str(o.string) and o.string.HasField('const') -%}
     if {{ name }} != {{ repr(o.string['const']) }}:
@@ -319,11 +325,11 @@ def string_template(option_value, name):
 
 def required_template(value, name):
     req_tmpl = """{%- if value['required'] %}
-    if not _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if not _has_field(p, \"{{ field_name(name) }}\"):
         raise ValidationFailed(\"{{ name }} is required.\")
     {%- endif -%}
     """
-    return Template(req_tmpl).render(value=value, name=name)
+    return Template(req_tmpl).render(value=value, name=name, field_name=field_name)
 
 
 def message_template(option_value, name, repeated=False):
@@ -336,7 +342,7 @@ def message_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         embedded = validate({{ name }})
         if embedded is not None:
@@ -344,7 +350,7 @@ def message_template(option_value, name, repeated=False):
     {%- endif -%}
     """
     return Template(message_tmpl).render(
-        m=option_value, name=name, required_template=required_template, repeated=repeated)
+        m=option_value, name=name, required_template=required_template, repeated=repeated, field_name=field_name)
 
 
 def bool_template(option_value, name):
@@ -456,7 +462,7 @@ def duration_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         dur = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set dur = o.duration -%}
@@ -536,7 +542,7 @@ def duration_template(option_value, name, repeated=False):
     """
     return Template(dur_tmpl).render(o=option_value, name=name, required_template=required_template,
                                      dur_lit=dur_lit, dur_arr=dur_arr, dur_ns=dur_ns,
-                                     dur_ns_arr=dur_ns_arr, repeated=repeated)
+                                     dur_ns_arr=dur_ns_arr, repeated=repeated, field_name=field_name)
 
 
 def timestamp_template(option_value, name, repeated=False):
@@ -545,7 +551,7 @@ def timestamp_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         ts = {{ name }}.seconds * 10**9 + {{ name }}.nanos
         {%- set ts = o.timestamp -%}
@@ -650,7 +656,7 @@ def timestamp_template(option_value, name, repeated=False):
     """
     return Template(timestamp_tmpl).render(o=option_value, name=name, required_template=required_template,
                                            dur_lit=dur_lit, dur_arr=dur_arr, dur_ns=dur_ns,
-                                           dur_ns_arr=dur_ns_arr, repeated=repeated)
+                                           dur_ns_arr=dur_ns_arr, repeated=repeated, field_name=field_name)
 
 
 def wrapper_template(option_value, name, repeated=False):
@@ -658,7 +664,7 @@ def wrapper_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if p.HasField(\"{{ name[2:] }}\"):
+    if p.HasField(\"{{ field_name(name) }}\"):
     {% endif %}
         pass
         {%- if str(option_value.float) %}
@@ -695,7 +701,7 @@ def wrapper_template(option_value, name, repeated=False):
     """
     return Template(wrapper_tmpl).render(option_value=option_value, name=name, str=str, num_template=num_template,
                                          bool_template=bool_template, string_template=string_template,
-                                         bytes_template=bytes_template, repeated=repeated)
+                                         bytes_template=bytes_template, repeated=repeated, field_name=field_name)
 
 
 def enum_values(field):
@@ -722,7 +728,7 @@ def any_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         if {{ name }}.type_url not in {{ o['in'] }}:
             raise ValidationFailed({{ repr(name ~ ' not in ' ~ o['in']) }})
@@ -731,14 +737,15 @@ def any_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ field_name(name) }}\"):
     {% endif %}
         if {{ name }}.type_url in {{ o['not_in'] }}:
             raise ValidationFailed({{ repr(name ~ ' in ' ~ o['not_in']) }})
     {%- endif %}
     """
     return Template(any_tmpl).render(
-        o=option_value.any, name=name, required_template=required_template, repeated=repeated, repr=repr)
+        o=option_value.any, name=name, required_template=required_template, repeated=repeated, repr=repr,
+        field_name=field_name)
 
 
 def bytes_template(option_value, name):
@@ -999,6 +1006,8 @@ def map_template(option_value, name, field):
 
 def rule_type(field):
     name = "p." + field.name
+    if keyword.iskeyword(field.name):
+        name = "getattr(p, '" + field.name + "')"
     if has_validate(field) and field.message_type is None:
         for option_descriptor, option_value in field.GetOptions().ListFields():
             if option_descriptor.full_name == "validate.rules":
-- 
2.43.0


From 3d23071491d0eec4ada98f37cf3eacf9769f51d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 68/72] fix: accept any decimal port in Python URIs

---
 python/protoc_gen_validate/validator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 07bf032..37e9ff8 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -141,6 +141,7 @@ def _without_zone(addr):
 # The characters of RFC 3986.
 _uri_chars = re.compile(r"(?:[a-zA-Z0-9\-._~:/?#\[\]@!$&'()*+,;=]|%[0-9a-fA-F]{2})*\Z")
 _uri_scheme = re.compile(r"[a-zA-Z][a-zA-Z0-9+.\-]*:")
+_uri_host = re.compile(r"(?:\[[^\[\]]*\]|[^:\[\]]*)(?::[0-9]*)?\Z")
 
 
 def _validateUriRef(uri, absolute=False):
@@ -149,10 +150,10 @@ def _validateUriRef(uri, absolute=False):
     if _uri_scheme.match(uri) is None and (absolute or ":" in re.split("[/?#]", uri)[0]):
         return False
     try:
-        urlparse.urlparse(uri).port
+        authority = urlparse.urlparse(uri).netloc
     except ValueError:
         return False
-    return True
+    return _uri_host.match(authority.rpartition("@")[2]) is not None
 
 
 def _has_field(message_pb, property_name):
-- 
2.43.0


From 00df9492ff1fca0229d2ad4c3af9c41e4971ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:30 +0000
Subject: [PATCH 69/72] fix: accept max_len and max_bytes beyond 2^63 with
 affixes

---
 module/checker.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index 7eef97f..c94b889 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -212,10 +212,10 @@ func (m *Module) CheckString(r *validate.StringRules) {
 	m.checkPattern(r.Pattern, len(r.In))
 
 	if r.MaxLen != nil {
-		max := int(r.GetMaxLen())
-		m.Assert(utf8.RuneCountInString(r.GetPrefix()) <= max, "`prefix` length exceeds the `max_len`")
-		m.Assert(utf8.RuneCountInString(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_len`")
-		m.Assert(utf8.RuneCountInString(r.GetContains()) <= max, "`contains` length exceeds the `max_len`")
+		max := r.GetMaxLen()
+		m.Assert(uint64(utf8.RuneCountInString(r.GetPrefix())) <= max, "`prefix` length exceeds the `max_len`")
+		m.Assert(uint64(utf8.RuneCountInString(r.GetSuffix())) <= max, "`suffix` length exceeds the `max_len`")
+		m.Assert(uint64(utf8.RuneCountInString(r.GetContains())) <= max, "`contains` length exceeds the `max_len`")
 
 		m.Assert(
 			r.MaxBytes == nil || r.GetMaxBytes() >= r.GetMaxLen(),
@@ -223,10 +223,10 @@ func (m *Module) CheckString(r *validate.StringRules) {
 	}
 
 	if r.MaxBytes != nil {
-		max := int(r.GetMaxBytes())
-		m.Assert(len(r.GetPrefix()) <= max, "`prefix` length exceeds the `max_bytes`")
-		m.Assert(len(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_bytes`")
-		m.Assert(len(r.GetContains()) <= max, "`contains` length exceeds the `max_bytes`")
+		max := r.GetMaxBytes()
+		m.Assert(uint64(len(r.GetPrefix())) <= max, "`prefix` length exceeds the `max_bytes`")
+		m.Assert(uint64(len(r.GetSuffix())) <= max, "`suffix` length exceeds the `max_bytes`")
+		m.Assert(uint64(len(r.GetContains())) <= max, "`contains` length exceeds the `max_bytes`")
 	}
 }
 
@@ -237,10 +237,10 @@ func (m *Module) CheckBytes(r *validate.BytesRules) {
 	m.checkPattern(r.Pattern, len(r.In))
 
 	if r.MaxLen != nil {
-		max := int(r.GetMaxLen())
-		m.Assert(len(r.GetPrefix()) <= max, "`prefix` length exceeds the `max_len`")
-		m.Assert(len(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_len`")
-		m.Assert(len(r.GetContains()) <= max, "`contains` length exceeds the `max_len`")
+		max := r.GetMaxLen()
+		m.Assert(uint64(len(r.GetPrefix())) <= max, "`prefix` length exceeds the `max_len`")
+		m.Assert(uint64(len(r.GetSuffix())) <= max, "`suffix` length exceeds the `max_len`")
+		m.Assert(uint64(len(r.GetContains())) <= max, "`contains` length exceeds the `max_len`")
 	}
 }
 
-- 
2.43.0


From 5571b8cfdb3017f984afe82dc9896c17adff0a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 70/72] fix: tell timestamp bounds 2^64 nanoseconds apart from
 equal ones

---
 module/checker.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index c94b889..06e655a 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -8,7 +8,6 @@ import (
 
 	"github.com/envoyproxy/protoc-gen-validate/validate"
 	"github.com/lyft/protoc-gen-star"
-	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/durationpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 )
@@ -515,12 +514,12 @@ func (m *Module) checkDur(d *durationpb.Duration) *time.Duration {
 	return &dur
 }
 
-func (m *Module) checkTS(ts *timestamppb.Timestamp) *int64 {
+func (m *Module) checkTS(ts *timestamppb.Timestamp) *time.Time {
 	if ts == nil {
 		return nil
 	}
 
 	t, err := ts.AsTime(), ts.CheckValid()
 	m.CheckErr(err, "could not resolve timestamp")
-	return proto.Int64(t.UnixNano())
+	return &t
 }
-- 
2.43.0


From 61877ac16a5732eb0d53049f1602dba100ba839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 71/72] fix: tell unknown enum numbers apart in Java repeated
 unique

---
 templates/java/register.go | 11 +++++++++++
 templates/java/repeated.go |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 5f67ea0..028cae2 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -36,6 +36,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 
 	tpl.Funcs(map[string]interface{}{
 		"accessor":         fns.accessor,
+		"uniqueAccessor":   fns.uniqueAccessor,
 		"byteArrayLit":     fns.byteArrayLit,
 		"camelCase":        fns.camelCase,
 		"classNameFile":    classNameFile,
@@ -276,6 +277,16 @@ func (fns javaFuncs) accessor(ctx shared.RuleContext) string {
 	return fns.fieldAccessor(ctx.Field)
 }
 
+// uniqueAccessor is the list to look for duplicates in. Enums of proto3 files
+// are compared as numbers: all unknown ones are the same enum constant.
+func (fns javaFuncs) uniqueAccessor(ctx shared.RuleContext) string {
+	f := ctx.Field
+	if ctx.AccessorOverride == "" && f.Type().IsRepeated() && f.Type().Element().IsEnum() && f.Syntax() == pgs.Proto3 {
+		return fmt.Sprintf("proto.get%sValueList()", accessorName(f))
+	}
+	return fns.accessor(ctx)
+}
+
 func (fns javaFuncs) fieldAccessor(f pgs.Field) string {
 	fieldName := accessorName(f)
 	if f.Type().IsMap() {
diff --git a/templates/java/repeated.go b/templates/java/repeated.go
index 5bc993d..e4614d4 100644
--- a/templates/java/repeated.go
+++ b/templates/java/repeated.go
@@ -13,7 +13,7 @@ const repeatedTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ lenLit $r.GetMaxItems }});
 {{- end -}}
 {{- if $r.GetUnique }}
-			io.envoyproxy.pgv.RepeatedValidation.unique("{{ $f.FullyQualifiedName }}", {{ accessor . }});
+			io.envoyproxy.pgv.RepeatedValidation.unique("{{ $f.FullyQualifiedName }}", {{ uniqueAccessor . }});
 {{- end }}
 			io.envoyproxy.pgv.RepeatedValidation.forEach({{ accessor . }}, item -> {
 				{{ render (.Elem "item" "") }}
-- 
2.43.0


From 79ade0bc90d59fa2411ec36f793aafcce3c77dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:32 +0000
Subject: [PATCH 72/72] fix: lt_now and gt_now set to false are no rules

---
 module/checker.go                       | 4 ++--
 python/protoc_gen_validate/validator.py | 4 ++--
 templates/cc/timestamp.go               | 8 ++++----
 templates/go/timestamp.go               | 2 +-
 templates/goshared/timestamp.go         | 6 +++---
 templates/java/timestamp.go             | 4 ++--
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index 06e655a..7e87734 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -367,7 +367,7 @@ func (m *Module) CheckTimestamp(ft FieldType, r *validate.TimestampRules) {
 		m.checkTS(r.GetGte()))
 
 	m.Assert(
-		(r.LtNow == nil && r.GtNow == nil) || (r.Lt == nil && r.Lte == nil && r.Gt == nil && r.Gte == nil),
+		(!r.GetLtNow() && !r.GetGtNow()) || (r.Lt == nil && r.Lte == nil && r.Gt == nil && r.Gte == nil),
 		"`now` rules cannot be mixed with absolute `lt/gt` rules")
 
 	m.Assert(
@@ -375,7 +375,7 @@ func (m *Module) CheckTimestamp(ft FieldType, r *validate.TimestampRules) {
 		"`within` rule cannot be used with absolute `lt/gt` rules")
 
 	m.Assert(
-		r.LtNow == nil || r.GtNow == nil,
+		!r.GetLtNow() || !r.GetGtNow(),
 		"both `now` rules cannot be used together")
 
 	dur := m.checkDur(r.Within)
diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 37e9ff8..e7f7a1c 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -628,7 +628,7 @@ def timestamp_template(option_value, name, repeated=False):
         {%- elif ts.HasField('gte') %}
         if ts < gte:
             raise ValidationFailed(\"{{ name }} is not greater than or equal to {{ dur_lit(ts['gte']) }}\")
-        {%- elif ts.HasField('lt_now') %}
+        {%- elif ts['lt_now'] %}
         now = time.time_ns()
             {%- if ts.HasField('within') %}
         within = {{ dur_ns(ts['within']) }}
@@ -638,7 +638,7 @@ def timestamp_template(option_value, name, repeated=False):
         if ts >= now:
             raise ValidationFailed(\"{{ name }} is not lesser than now\")
             {%- endif -%}
-        {%- elif ts.HasField('gt_now') %}
+        {%- elif ts['gt_now'] %}
         now = time.time_ns()
             {%- if ts.HasField('within') %}
         within = {{ dur_ns(ts['within']) }}
diff --git a/templates/cc/timestamp.go b/templates/cc/timestamp.go
index 9e27fcf..775dd3c 100644
--- a/templates/cc/timestamp.go
+++ b/templates/cc/timestamp.go
@@ -3,14 +3,14 @@ package cc
 const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ template "required" . }}
 
-	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.LtNow $r.GtNow $r.Within $r.Const }}
+	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.GetLtNow $r.GetGtNow $r.Within $r.Const }}
 		{{ unimplemented "C++ timestamp comparison validations are not implemented" }}
 		{{/*
 		if t := {{ accessor . }}; t != nil {
 			ts, err := ptypes.Timestamp(t)
 			if err != nil { return {{ errCause . "err" "value is not a valid timestamp" }} }
 
-			{{ if or $r.LtNow $r.GtNow $r.Within }} now := time.Now(); {{ end }}
+			{{ if or $r.GetLtNow $r.GetGtNow $r.Within }} now := time.Now(); {{ end }}
 			{{- if $r.Lt }}  lt  := {{ tsLit $r.Lt }};  {{ end }}
 			{{- if $r.Lte }} lte := {{ tsLit $r.Lte }}; {{ end }}
 			{{- if $r.Gt }}  gt  := {{ tsLit $r.Gt }};  {{ end }}
@@ -77,7 +77,7 @@ const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				if ts.Sub(gte) < 0 {
 					return {{ err . "value must be greater than or equal to " (tsStr $r.GetGte) }}
 				}
-			{{ else if $r.LtNow }}
+			{{ else if $r.GetLtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) >= 0 || ts.Sub(now.Add(-within)) < 0 {
 						return {{ err . "value must be less than now within " (durStr $r.GetWithin) }}
@@ -87,7 +87,7 @@ const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 						return {{ err . "value must be less than now" }}
 					}
 				{{ end }}
-			{{ else if $r.GtNow }}
+			{{ else if $r.GetGtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) >= 0 || ts.Sub(now.Add(within)) > 0 {
 						return {{ err . "value must be greater than now within " (durStr $r.GetWithin) }}
diff --git a/templates/go/timestamp.go b/templates/go/timestamp.go
index a0943bf..4b85291 100644
--- a/templates/go/timestamp.go
+++ b/templates/go/timestamp.go
@@ -3,7 +3,7 @@ package golang
 const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ template "required" . }}
 
-	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.LtNow $r.GtNow $r.Within $r.Const }}
+	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.GetLtNow $r.GetGtNow $r.Within $r.Const }}
 		if t := {{ accessor . }}; t != nil {
 			ts, err := t.AsTime(), t.CheckValid()
 			if err != nil {
diff --git a/templates/goshared/timestamp.go b/templates/goshared/timestamp.go
index 3031626..60315c3 100644
--- a/templates/goshared/timestamp.go
+++ b/templates/goshared/timestamp.go
@@ -9,7 +9,7 @@ const timestampcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				}
 			{{ end }}
 
-			{{ if or $r.LtNow $r.GtNow $r.Within }} now := time.Now(); {{ end }}
+			{{ if or $r.GetLtNow $r.GetGtNow $r.Within }} now := time.Now(); {{ end }}
 			{{- if $r.Lt }}  lt  := {{ tsLit $r.Lt }};  {{ end }}
 			{{- if $r.Lte }} lte := {{ tsLit $r.Lte }}; {{ end }}
 			{{- if $r.Gt }}  gt  := {{ tsLit $r.Gt }};  {{ end }}
@@ -100,7 +100,7 @@ const timestampcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
-			{{ else if $r.LtNow }}
+			{{ else if $r.GetLtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) >= 0 || ts.Sub(now.Add(-within)) < 0 {
 						err := {{ err . "value must be less than now within " (durStr $r.GetWithin) }}
@@ -114,7 +114,7 @@ const timestampcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 						errors = append(errors, err)
 					}
 				{{ end }}
-			{{ else if $r.GtNow }}
+			{{ else if $r.GetGtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) <= 0 || ts.Sub(now.Add(within)) > 0 {
 						err := {{ err . "value must be greater than now within " (durStr $r.GetWithin) }}
diff --git a/templates/java/timestamp.go b/templates/java/timestamp.go
index 8ff860f..70f7775 100644
--- a/templates/java/timestamp.go
+++ b/templates/java/timestamp.go
@@ -42,10 +42,10 @@ const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, com.google.protobuf.util.Timestamps.comparator());
 {{- end -}}
 {{- end -}}
-{{- if $r.LtNow }}
+{{- if $r.GetLtNow }}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, io.envoyproxy.pgv.TimestampValidation.currentTimestamp(), com.google.protobuf.util.Timestamps.comparator());
 {{- end -}}
-{{- if $r.GtNow }}
+{{- if $r.GetGtNow }}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, io.envoyproxy.pgv.TimestampValidation.currentTimestamp(), com.google.protobuf.util.Timestamps.comparator());
 {{- end -}}
 {{- if $r.Within }}
-- 
2.43.0

