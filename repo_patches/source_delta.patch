From e0a91c602b719fd7a22a11187db0138af57d38b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 01/70] fix: Go hostname check accepted U+212A KELVIN SIGN,
 which ToLower maps to k

---
 templates/goshared/known.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index ad32cfc..c3f9ba1 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -8,6 +8,13 @@ const hostTpl = `
 			return errors.New("hostname cannot exceed 253 characters")
 		}
 
+		// ToLower maps some letters outside ASCII (e.g. U+212A) into it.
+		for _, r := range host {
+			if r >= utf8.RuneSelf {
+				return fmt.Errorf("hostname parts can only contain alphanumeric characters or hyphens, got %q", string(r))
+			}
+		}
+
 		for _, part := range strings.Split(s, ".") {
 			if l := len(part); l == 0 || l > 63 {
 				return errors.New("hostname part must be non-empty and cannot exceed 63 characters")
-- 
2.43.0


From a183af47abea253a6f0381443e54218673476daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 02/70] fix: Go bytes in/not_in with a byte below 0x10
 generated an invalid escape

---
 templates/goshared/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index e532d08..6223918 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -199,7 +199,7 @@ func (fns goSharedFuncs) isBytes(f interface {
 func (fns goSharedFuncs) byteStr(x []byte) string {
 	elms := make([]string, len(x))
 	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+		elms[i] = fmt.Sprintf(`\x%02X`, b)
 	}
 
 	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
-- 
2.43.0


From 853041920ed89ab10b72a059ef4a203021211373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 03/70] fix: Go map with skipped values left the range variable
 key unused

---
 templates/goshared/map.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/goshared/map.go b/templates/goshared/map.go
index cadf990..342ea57 100644
--- a/templates/goshared/map.go
+++ b/templates/goshared/map.go
@@ -38,6 +38,7 @@ const mapTpl = `
 	{{ if or $r.GetNoSparse (ne (.Elem "" "").Typ "none") (ne (.Key "" "").Typ "none") }}
 		for key, val := range {{ accessor . }} {
 			_ = val
+			_ = key
 
 			{{ if $r.GetNoSparse }}
 				if val == nil {
-- 
2.43.0


From 90c4794ddaea72ad2a5535dc435e4d15325a3b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 04/70] fix: Go BytesValue with in/not_in generated a map with
 slice keys

---
 templates/goshared/register.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 6223918..5f2f2e9 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -217,6 +217,8 @@ func (fns goSharedFuncs) inType(f pgs.Field, x interface{}) string {
 		switch x.(type) {
 		case []*durationpb.Duration:
 			return "time.Duration"
+		case [][]byte:
+			return "string"
 		default:
 			return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
 		}
@@ -240,6 +242,8 @@ func (fns goSharedFuncs) inKey(f pgs.Field, x interface{}) string {
 		case *durationpb.Duration:
 			dur := x.AsDuration()
 			return fns.lit(int64(dur))
+		case []byte:
+			return fns.byteStr(x)
 		default:
 			return fns.lit(x)
 		}
-- 
2.43.0


From 59007f5f8c65b685910d6f408ace3d6d89733a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 05/70] fix: Go email check split a quoted local part at its
 own @

---
 templates/goshared/known.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index c3f9ba1..21c95f5 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -51,7 +51,9 @@ const emailTpl = `
 			return errors.New("email addresses cannot exceed 254 characters")
 		}
 
-		parts := strings.SplitN(addr, "@", 2)
+		// A quoted local part may contain an "@" of its own.
+		at := strings.LastIndex(addr, "@")
+		parts := []string{addr[:at], addr[at+1:]}
 
 		if len(parts[0]) > 64 {
 			return errors.New("email address local phrase cannot exceed 64 characters")
-- 
2.43.0


From a888ced0146eba903a046a0afffb2538cce606f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 06/70] fix: HTTP_HEADER_NAME regex accepted a comma (+-. was
 read as a range)

---
 module/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/checker.go b/module/checker.go
index d8beabe..9404ac7 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -14,7 +14,7 @@ import (
 )
 
 var unknown = ""
-var httpHeaderName = "^:?[0-9a-zA-Z!#$%&'*+-.^_|~\x60]+$"
+var httpHeaderName = "^:?[0-9a-zA-Z!#$%&'*+.^_|~\x60-]+$"
 var httpHeaderValue = "^[^\u0000-\u0008\u000A-\u001F\u007F]*$"
 var headerString = "^[^\u0000\u000A\u000D]*$" // For non-strict validation.
 
-- 
2.43.0


From 10f632c34d3233058b06291cffacdc2de39151fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 07/70] fix: errors of map keys never reported Key() == true

---
 templates/shared/context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/shared/context.go b/templates/shared/context.go
index a374135..dd8b985 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -54,6 +54,7 @@ func (ctx RuleContext) Key(name, idx string) (out RuleContext, err error) {
 	out.Field = ctx.Field
 	out.AccessorOverride = name
 	out.Index = idx
+	out.OnKey = true
 
 	out.Typ, out.Rules, out.MessageRules, _ = resolveRules(ctx.Field.Type().Key(), rules.GetKeys())
 
-- 
2.43.0


From 4b7108165ee9e284d90f0f9ddf58c043d876f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 08/70] fix: Go uuid rule in a nested message left the file's
 uuid pattern undefined

---
 templates/shared/well_known.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 87f5e98..0747f16 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -14,7 +14,7 @@ const (
 )
 
 func FileNeeds(f pgs.File, wk WellKnown) bool {
-	for _, msg := range f.Messages() {
+	for _, msg := range f.AllMessages() {
 		needed := Needs(msg, wk)
 		if needed {
 			return true
-- 
2.43.0


From 728914f1bcbe2fe9db607c84d0b3526e4f1f3aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 09/70] fix: scalar rules on wrapper elements of repeated and
 map fields crashed the generator

---
 templates/cc/register.go       |  2 +-
 templates/goshared/register.go |  2 +-
 templates/java/register.go     | 13 +++++++------
 templates/shared/context.go    | 12 ++++++++++++
 templates/shared/well_known.go | 10 ++++++++--
 5 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 615932c..643ce8a 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -404,7 +404,7 @@ func (fns CCFuncs) unwrap(ctx shared.RuleContext, name string) (shared.RuleConte
 	}
 
 	ctx.AccessorOverride = fmt.Sprintf("%s.%s()", name,
-		ctx.Field.Type().Embed().Fields()[0].Name())
+		ctx.Embed().Fields()[0].Name())
 
 	return ctx, nil
 }
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 5f2f2e9..4348494 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -296,7 +296,7 @@ func (fns goSharedFuncs) unwrap(ctx shared.RuleContext, name string) (shared.Rul
 	}
 
 	ctx.AccessorOverride = fmt.Sprintf("%s.Get%s()", name,
-		pgsgo.PGGUpperCamelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+		pgsgo.PGGUpperCamelCase(ctx.Embed().Fields()[0].Name()))
 
 	return ctx, nil
 }
diff --git a/templates/java/register.go b/templates/java/register.go
index 534785a..7bea3f3 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -340,8 +340,8 @@ func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
 		}
 	}
 
-	if t.IsEmbed() {
-		if embed := t.Embed(); embed.IsWellKnown() {
+	if embed := ctx.Embed(); embed != nil {
+		if embed.IsWellKnown() {
 			switch embed.WellKnownType() {
 			case pgs.AnyWKT:
 				return "String"
@@ -410,8 +410,8 @@ func (fns javaFuncs) javaTypeLiteralSuffixFor(ctx shared.RuleContext) string {
 		}
 	}
 
-	if t.IsEmbed() {
-		if embed := t.Embed(); embed.IsWellKnown() {
+	if embed := ctx.Embed(); embed != nil {
+		if embed.IsWellKnown() {
 			switch embed.WellKnownType() {
 			case pgs.Int64ValueWKT, pgs.UInt64ValueWKT:
 				return "L"
@@ -498,12 +498,13 @@ func (fns javaFuncs) isOfStringType(f pgs.Field) bool {
 }
 
 func (fns javaFuncs) unwrap(ctx shared.RuleContext) (shared.RuleContext, error) {
+	wrapper := fns.accessor(ctx)
 	ctx, err := ctx.Unwrap("wrapped")
 	if err != nil {
 		return ctx, err
 	}
-	ctx.AccessorOverride = fmt.Sprintf("%s.get%s()", fns.fieldAccessor(ctx.Field),
-		fns.camelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+	ctx.AccessorOverride = fmt.Sprintf("%s.get%s()", wrapper,
+		fns.camelCase(ctx.Embed().Fields()[0].Name()))
 	return ctx, nil
 }
 
diff --git a/templates/shared/context.go b/templates/shared/context.go
index dd8b985..14bdc47 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -105,10 +105,22 @@ func (ctx RuleContext) Unwrap(name string) (out RuleContext, err error) {
 		Rules:            ctx.Rules,
 		MessageRules:     ctx.MessageRules,
 		Typ:              ctx.WrapperTyp,
+		OnKey:            ctx.OnKey,
+		Index:            ctx.Index,
 		AccessorOverride: name,
 	}, nil
 }
 
+// Embed returns the message type the context's rules apply to: that of the
+// elements for a repeated or map field, that of the field itself otherwise.
+func (ctx RuleContext) Embed() pgs.Message {
+	if el := ctx.Field.Type().Element(); el != nil {
+		return el.Embed()
+	}
+
+	return ctx.Field.Type().Embed()
+}
+
 func Render(tpl *template.Template) func(ctx RuleContext) (string, error) {
 	return func(ctx RuleContext) (string, error) {
 		var b bytes.Buffer
diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 0747f16..552b9d6 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -34,7 +34,7 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 		}
 
 		switch {
-		case f.Type().IsRepeated() && f.Type().Element().ProtoType() == pgs.StringT:
+		case f.Type().IsRepeated() && isString(f.Type().Element()):
 			if strRulesNeeds(rules.GetRepeated().GetItems().GetString_(), wk) {
 				return true
 			}
@@ -43,7 +43,7 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 				strRulesNeeds(rules.GetMap().GetKeys().GetString_(), wk) {
 				return true
 			}
-			if f.Type().Element().ProtoType() == pgs.StringT &&
+			if isString(f.Type().Element()) &&
 				strRulesNeeds(rules.GetMap().GetValues().GetString_(), wk) {
 				return true
 			}
@@ -61,6 +61,12 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 	return false
 }
 
+// isString returns true if the element is a string or a wrapped string.
+func isString(el pgs.FieldTypeElem) bool {
+	return el.ProtoType() == pgs.StringT ||
+		el.IsEmbed() && el.Embed().WellKnownType() == pgs.StringValueWKT
+}
+
 func strRulesNeeds(rules *validate.StringRules, wk WellKnown) bool {
 	switch wk {
 	case Email:
-- 
2.43.0


From 156831d981a44aad7c61615a68ef05bcce0108bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 10/70] fix: bytes len was accepted together with
 min_len/max_len

---
 module/checker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/module/checker.go b/module/checker.go
index 9404ac7..2cda33e 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -231,6 +231,7 @@ func (m *Module) CheckString(r *validate.StringRules) {
 }
 
 func (m *Module) CheckBytes(r *validate.BytesRules) {
+	m.checkLen(r.Len, r.MinLen, r.MaxLen)
 	m.checkMinMax(r.MinLen, r.MaxLen)
 	m.checkIns(len(r.In), len(r.NotIn))
 	m.checkPattern(r.Pattern, len(r.In))
-- 
2.43.0


From 8ebf4eed865605c653ef8dfc86267d57110ef92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 11/70] fix: ExplicitValidatorIndex looked its fallback
 validator up but never called it

---
 .../src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
index 828d13e..f1051d3 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
@@ -33,7 +33,7 @@ public final class ExplicitValidatorIndex implements ValidatorIndex {
     @SuppressWarnings("unchecked")
     public <T> Validator<T> validatorFor(Class clazz) {
         return VALIDATOR_INDEX.computeIfAbsent(clazz, c ->
-                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c))
+                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c).assertValid(p))
                         .assertValid(proto, ExplicitValidatorIndex.this));
     }
 }
-- 
2.43.0


From 6236ca06e07234528223316e45e03a23d5779dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 12/70] fix: gRPC server interceptor went on delivering
 messages, and closing the call, after it had closed it

---
 .../io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
index 60b5147..2798efb 100644
--- a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
+++ b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
@@ -25,6 +25,10 @@ public class ValidatingServerInterceptor implements ServerInterceptor {
 
             @Override
             public void onMessage(ReqT message) {
+                if (aborted) {
+                    return;
+                }
+
                 try {
                     index.validatorFor(message.getClass()).assertValid(message);
                     super.onMessage(message);
-- 
2.43.0


From d852b9bccf4fb0e7b44153f126c335a25ba0bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 13/70] fix: ReflectiveValidatorIndex cached a null validator
 for types the generated file skips

---
 .../main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
index f9f7778..583ff96 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
@@ -48,6 +48,9 @@ public final class ReflectiveValidatorIndex implements ValidatorIndex {
         String validatorClassName = enclosingClass.getName() + "Validator";
         Class validatorClass = clazz.getClassLoader().loadClass(validatorClassName);
         ValidatorImpl impl = (ValidatorImpl) validatorClass.getDeclaredMethod("validatorFor", Class.class).invoke(null, clazz);
+        if (impl == null) {
+            throw new ClassNotFoundException("no validator for " + clazz.getName() + " in " + validatorClassName);
+        }
 
         return proto -> impl.assertValid(proto, ReflectiveValidatorIndex.this);
     }
-- 
2.43.0


From 9255e31babdb50d04eda081ba1dd3baf00026b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 14/70] fix: C++ IsIpv4/IsIpv6 ignored everything after an
 embedded NUL

---
 validate/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validate/validate.h b/validate/validate.h
index b859497..d3bcc3a 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -96,12 +96,13 @@ static inline bool NotContains(const string& search_in, const string& to_find)
 
 static inline bool IsIpv4(const string& to_validate) {
 	struct sockaddr_in sa;
-	return !(inet_pton(AF_INET, to_validate.c_str(), &sa.sin_addr) < 1);
+	// inet_pton stops at the first NUL.
+	return to_validate.find('\0') == string::npos && !(inet_pton(AF_INET, to_validate.c_str(), &sa.sin_addr) < 1);
 }
 
 static inline bool IsIpv6(const string& to_validate) {
   struct sockaddr_in6 sa_six;
-	return !(inet_pton(AF_INET6, to_validate.c_str(), &sa_six.sin6_addr) < 1);
+	return to_validate.find('\0') == string::npos && !(inet_pton(AF_INET6, to_validate.c_str(), &sa_six.sin6_addr) < 1);
 }
 
 static inline bool IsIp(const string& to_validate) {
-- 
2.43.0


From 4294f8c1574a36f76bc8fee3dab13f4441a585e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 15/70] fix: C++ generator crashed on in/not_in on wrapper
 fields other than StringValue

---
 templates/cc/register.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 643ce8a..b9a80a2 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -288,8 +288,10 @@ func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
 		return "string"
 	case pgs.MessageT:
 		switch x.(type) {
-		case []string:
+		case []string, [][]byte:
 			return "string"
+		case []float32, []float64, []int32, []int64, []uint32, []uint64:
+			return fns.cTypeOfString(reflect.TypeOf(x).Elem().String())
 		case []*durationpb.Duration:
 			return "pgv::protobuf_wkt::Duration"
 		default:
@@ -350,6 +352,8 @@ func (fns CCFuncs) inKey(f pgs.Field, x interface{}) string {
 		switch x := x.(type) {
 		case *durationpb.Duration:
 			return fns.durLit(x)
+		case []byte:
+			return fns.byteStr(x)
 		default:
 			return fns.lit(x)
 		}
-- 
2.43.0


From e470ff22d4543b62a6483e04a668cc13d80cd713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 16/70] fix: C++ enum in/not_in lookups did not compile for an
 enum of another package

---
 templates/cc/register.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index b9a80a2..24ac62c 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -306,16 +306,25 @@ func (fns CCFuncs) cType(t pgs.FieldType) string {
 	if t.IsEmbed() {
 		return fns.className(t.Embed())
 	}
+	if t.IsEnum() {
+		return fns.className(t.Enum())
+	}
 	if t.IsRepeated() {
 		if t.ProtoType() == pgs.MessageT {
 			return fns.className(t.Element().Embed())
 		}
+		if t.Element().IsEnum() {
+			return fns.className(t.Element().Enum())
+		}
 		// Strip the leading []
 		return fns.cTypeOfString(fns.Type(t.Field()).String()[2:])
 	} else if t.IsMap() {
 		if t.Element().IsEmbed() {
 			return fns.className(t.Element().Embed())
 		}
+		if t.Element().IsEnum() {
+			return fns.className(t.Element().Enum())
+		}
 
 		return fns.cTypeOfString(fns.Type(t.Field()).Element().String())
 	}
-- 
2.43.0


From 7d829ec85f3c47d9ab7f1f70d7ebf0d498514ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 17/70] fix: C++ code for a repeated enum field with the unique
 rule did not compile

---
 templates/cc/repeated.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 53b2a35..477cd93 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -2,6 +2,7 @@ package cc
 
 const repTpl = `
 	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := inType $f nil }}
+	{{- if $f.Type.Element.IsEnum }}{{ $typ = "int" }}{{ end }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
 	{{ end }}
-- 
2.43.0


From 779c5a8440849db6d61ced8971404dec578b77ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 18/70] fix: C++ accessors of fields with upper-case letters
 did not compile

---
 templates/cc/register.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 24ac62c..0885ac7 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -114,7 +114,8 @@ func CcFilePath(f pgs.File, ctx pgsgo.Context, tpl *template.Template) *pgs.File
 }
 
 func (fns CCFuncs) methodName(name interface{}) string {
-	nameStr := fmt.Sprintf("%s", name)
+	// protoc lower-cases accessor names.
+	nameStr := strings.ToLower(fmt.Sprintf("%s", name))
 	switch nameStr {
 	case "const":
 		return "const_"
-- 
2.43.0


From 599877ba6ea9884fe2c9fcae13de109600c6f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 19/70] fix: C++ string and bytes constants were cut at NUL or
 merged with the characters after an escape

---
 templates/cc/bytes.go    |  6 ++---
 templates/cc/const.go    |  2 +-
 templates/cc/register.go | 57 +++++++++++++++++++++++++++++-----------
 templates/cc/string.go   |  8 +++---
 4 files changed, 50 insertions(+), 23 deletions(-)

diff --git a/templates/cc/bytes.go b/templates/cc/bytes.go
index 9bae2c8..12e2e30 100644
--- a/templates/cc/bytes.go
+++ b/templates/cc/bytes.go
@@ -42,7 +42,7 @@ const bytesTpl = `
 
 	{{ if $r.Prefix }}
 	{
-		const std::string prefix = {{ lit $r.GetPrefix }};
+		const std::string prefix = {{ val $r.GetPrefix }};
 		if (!pgv::IsPrefix(prefix, {{ accessor . }})) {
 			{{ err . "value does not have prefix " (lit $r.GetPrefix) }}
 		}
@@ -51,7 +51,7 @@ const bytesTpl = `
 
 	{{ if $r.Suffix }}
 	{
-		const std::string suffix = {{ lit $r.GetSuffix }};
+		const std::string suffix = {{ val $r.GetSuffix }};
 		if (!pgv::IsSuffix(suffix, {{ accessor .}})) {
 			{{ err . "value does not have suffix " (lit $r.GetSuffix) }}
 		}
@@ -60,7 +60,7 @@ const bytesTpl = `
 
 	{{ if $r.Contains }}
 	{
-		if (!pgv::Contains({{ accessor . }}, {{ lit $r.GetContains }})) {
+		if (!pgv::Contains({{ accessor . }}, {{ val $r.GetContains }})) {
 			{{ err . "value does not contain substring " (lit $r.GetContains) }}
 		}
 	}
diff --git a/templates/cc/const.go b/templates/cc/const.go
index 2d6af9e..f3ccbd7 100644
--- a/templates/cc/const.go
+++ b/templates/cc/const.go
@@ -2,7 +2,7 @@ package cc
 
 const constTpl = `{{ $r := .Rules }}
 	{{ if $r.Const }}
-		if ({{ accessor . }} != {{ lit $r.GetConst }}) {
+		if ({{ accessor . }} != {{ val $r.GetConst }}) {
 			{{ err . "value must equal " (lit $r.GetConst) }}
 		}
 	{{ end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 0885ac7..85958ab 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -48,6 +48,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"typ":           fns.Type,
 		"unimplemented": fns.failUnimplemented,
 		"unwrap":        fns.unwrap,
+		"val":           fns.val,
 	})
 	template.Must(tpl.Parse(moduleFileTpl))
 	template.Must(tpl.New("msg").Parse(msgTpl))
@@ -206,7 +207,7 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 		output = append(output, fmt.Sprintf(`msg << "[" << %s << "]";`, ctx.Index))
 	}
 
-	output = append(output, fmt.Sprintf(`msg << ": " << %q;`, fmt.Sprint(reason...)))
+	output = append(output, fmt.Sprintf(`msg << ": " << %s;`, cString(fmt.Sprint(reason...))))
 
 	if cause != "nil" && cause != "" {
 		output = append(output, fmt.Sprintf(`msg << " | caused by " << %s;`, cause))
@@ -240,17 +241,13 @@ func (fns CCFuncs) lit(x interface{}) string {
 
 	switch val.Kind() {
 	case reflect.String:
-		return fmt.Sprintf("%q", x)
+		return cString(val.String())
 	case reflect.Uint8:
 		return fmt.Sprintf("%d", x)
 	case reflect.Slice:
-		els := make([]string, val.Len())
 		switch reflect.TypeOf(x).Elem().Kind() {
 		case reflect.Uint8:
-			for i, l := 0, val.Len(); i < l; i++ {
-				els[i] = fmt.Sprintf("\\x%x", val.Index(i).Interface())
-			}
-			return fmt.Sprintf("\"%s\"", strings.Join(els, ""))
+			return cString(string(val.Bytes()))
 		default:
 			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 		}
@@ -268,12 +265,44 @@ func (fns CCFuncs) isBytes(f interface {
 }
 
 func (fns CCFuncs) byteStr(x []byte) string {
-	elms := make([]string, len(x))
-	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+	return fns.val(x)
+}
+
+// val is lit, except that strings and bytes containing a NUL become a
+// std::string of the right length: a bare literal would end at the NUL.
+func (fns CCFuncs) val(x interface{}) string {
+	var s string
+	switch x := x.(type) {
+	case string:
+		s = x
+	case []byte:
+		s = string(x)
 	}
 
-	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
+	if strings.IndexByte(s, 0) < 0 {
+		return fns.lit(x)
+	}
+	return fmt.Sprintf("std::string(%s, %d)", cString(s), len(s))
+}
+
+// cString returns s as a C++ string literal. Octal escapes are used as, unlike
+// \x ones, they cannot swallow the characters following them.
+func cString(s string) string {
+	var b strings.Builder
+	b.WriteByte('"')
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '"' || c == '\\' || c == '?':
+			b.WriteByte('\\')
+			b.WriteByte(c)
+		case c < ' ' || c > '~':
+			fmt.Fprintf(&b, `\%03o`, c)
+		default:
+			b.WriteByte(c)
+		}
+	}
+	b.WriteByte('"')
+	return b.String()
 }
 
 func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
@@ -362,15 +391,13 @@ func (fns CCFuncs) inKey(f pgs.Field, x interface{}) string {
 		switch x := x.(type) {
 		case *durationpb.Duration:
 			return fns.durLit(x)
-		case []byte:
-			return fns.byteStr(x)
 		default:
-			return fns.lit(x)
+			return fns.val(x)
 		}
 	case pgs.EnumT:
 		return fmt.Sprintf("%s(%d)", fns.cType(f.Type()), x.(int32))
 	default:
-		return fns.lit(x)
+		return fns.val(x)
 	}
 }
 
diff --git a/templates/cc/string.go b/templates/cc/string.go
index 112966c..712540a 100644
--- a/templates/cc/string.go
+++ b/templates/cc/string.go
@@ -76,7 +76,7 @@ const strTpl = `
 
 	{{ if $r.Prefix }}
 	{
-		const std::string prefix = {{ lit $r.GetPrefix }};
+		const std::string prefix = {{ val $r.GetPrefix }};
 		if (!pgv::IsPrefix(prefix, {{ accessor . }})) {
 			{{ err . "value does not have prefix " (lit $r.GetPrefix) }}
 		}
@@ -85,7 +85,7 @@ const strTpl = `
 
 	{{ if $r.Suffix }}
 	{
-		const std::string suffix = {{ lit $r.GetSuffix }};
+		const std::string suffix = {{ val $r.GetSuffix }};
 		const std::string& value = {{ accessor . }};
 		if (!pgv::IsSuffix(suffix, value)) {
 			{{ err . "value does not have suffix " (lit $r.GetSuffix) }}
@@ -95,7 +95,7 @@ const strTpl = `
 
 	{{ if $r.Contains }}
 	{
-		if (!pgv::Contains({{ accessor . }}, {{ lit $r.GetContains }})) {
+		if (!pgv::Contains({{ accessor . }}, {{ val $r.GetContains }})) {
 			{{ err . "value does not contain substring " (lit $r.GetContains) }}
 		}
 	}
@@ -103,7 +103,7 @@ const strTpl = `
 
 	{{ if $r.NotContains }}
 	{
-		if (pgv::Contains({{ accessor . }}, {{ lit $r.GetNotContains }})) {
+		if (pgv::Contains({{ accessor . }}, {{ val $r.GetNotContains }})) {
 			{{ err . "value contains substring " (lit $r.GetNotContains) }}
 		}
 	}
-- 
2.43.0


From 74af37fd36a14d0cd90f650ee9bbbec05f1ae755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 20/70] fix: C++ compared float fields with rounded or
 double-precision bounds

---
 templates/cc/ltgt.go     | 24 ++++++++++++------------
 templates/cc/register.go |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/templates/cc/ltgt.go b/templates/cc/ltgt.go
index f296d93..9f31025 100644
--- a/templates/cc/ltgt.go
+++ b/templates/cc/ltgt.go
@@ -4,61 +4,61 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}{{ $v := (accessor .) }}
 	{{ if $r.Lt }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLt $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} <= {{ lit $r.GetGt }} || {{ $v }} >= {{ lit $r.GetLt }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} >= {{ lit $r.GetLt }} && {{ $v }} <= {{ lit $r.GetGt }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{  if gt $r.GetLt $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} < {{ lit $r.GetGte }} || {{ $v }} >= {{ lit $r.GetLt }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} >= {{ lit $r.GetLt }} && {{ $v }} < {{ lit $r.GetGte }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} >= {{ $r.Lt }}) {
+			if ({{ accessor . }} >= {{ lit $r.GetLt }}) {
 				{{ err . "value must be less than " $r.GetLt }}
 			}
 		{{ end }}
 	{{ else if $r.Lte }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLte $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} <= {{ lit $r.GetGt }} || {{ $v }} > {{ lit $r.GetLte }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} > {{ lit $r.GetLte }} && {{ $v }} <= {{ lit $r.GetGt }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{ if gt $r.GetLte $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} < {{ lit $r.GetGte }} || {{ $v }} > {{ lit $r.GetLte }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} > {{ lit $r.GetLte }} && {{ $v }} < {{ lit $r.GetGte }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} > {{ $r.Lte }}) {
+			if ({{ accessor . }} > {{ lit $r.GetLte }}) {
 				{{ err . "value must be less than or equal to " $r.GetLte }}
 			}
 		{{ end }}
 	{{ else if $r.Gt }}
-		if ({{ accessor . }} <= {{ $r.Gt }}) {
+		if ({{ accessor . }} <= {{ lit $r.GetGt }}) {
 			{{ err . "value must be greater than " $r.GetGt }}
 		}
 	{{ else if $r.Gte }}
-		if ({{ accessor . }} < {{ $r.Gte }}) {
+		if ({{ accessor . }} < {{ lit $r.GetGte }}) {
 			{{ err . "value must be greater than or equal to " $r.GetGte }}
 		}
 	{{ end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 85958ab..d3e3c83 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -252,7 +252,7 @@ func (fns CCFuncs) lit(x interface{}) string {
 			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 		}
 	case reflect.Float32:
-		return fmt.Sprintf("%fF", x)
+		return strconv.FormatFloat(val.Float(), 'e', -1, 32) + "F"
 	default:
 		return fmt.Sprint(x)
 	}
-- 
2.43.0


From d1b1fccba8d185acb5deec69e4eb6ad463b5c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 21/70] fix: C++ in and not_in rules treated NaN as a member of
 every list

---
 templates/cc/in.go  |  4 ++--
 validate/validate.h | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/templates/cc/in.go b/templates/cc/in.go
index c9b8f75..9a35e82 100644
--- a/templates/cc/in.go
+++ b/templates/cc/in.go
@@ -2,11 +2,11 @@ package cc
 
 const inTpl = `{{ $f := .Field -}}{{ $r := .Rules -}}
 	{{- if $r.In }}
-		if ({{ lookup $f "InLookup" }}.find(static_cast<decltype({{ lookup $f "InLookup" }})::key_type>({{ accessor . }})) == {{ lookup $f "InLookup" }}.end()) {
+		if (!pgv::InSet({{ lookup $f "InLookup" }}, static_cast<decltype({{ lookup $f "InLookup" }})::key_type>({{ accessor . }}))) {
 			{{ err . "value must be in list " $r.In }}
 		}
 	{{- else if $r.NotIn }}
-		if ({{ lookup $f "NotInLookup" }}.find(static_cast<decltype({{ lookup $f "NotInLookup" }})::key_type>({{ accessor . }})) != {{ lookup $f "NotInLookup" }}.end()) {
+		if (pgv::InSet({{ lookup $f "NotInLookup" }}, static_cast<decltype({{ lookup $f "NotInLookup" }})::key_type>({{ accessor . }}))) {
 			{{ err . "value must not be in list " $r.NotIn }}
 		}
 	{{- end }}
diff --git a/validate/validate.h b/validate/validate.h
index d3bcc3a..52ae18f 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -3,6 +3,7 @@
 
 #include <functional>
 #include <regex>
+#include <set>
 #include <stdexcept>
 #include <string>
 #include <typeinfo>
@@ -94,6 +95,15 @@ static inline bool NotContains(const string& search_in, const string& to_find)
   return !Contains(search_in, to_find);
 }
 
+// The comparison of the element found matters for NaN, which std::set takes to
+// be equivalent to any other number.
+template <typename T>
+static inline bool InSet(const std::set<T>& set, const T& value)
+{
+  const auto it = set.find(value);
+  return it != set.end() && *it == value;
+}
+
 static inline bool IsIpv4(const string& to_validate) {
 	struct sockaddr_in sa;
 	// inet_pton stops at the first NUL.
-- 
2.43.0


From 7c35c52ee54cd9b0286a08f4eefecef626e4acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 22/70] fix: C++ accepted durations whose seconds and nanos
 differ in sign

---
 templates/cc/duration.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 16f086f..3d198e0 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -10,7 +10,8 @@ const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 			if (dur.nanos() > 999999999 || dur.nanos() < -999999999 ||
 			    dur.seconds() > pgv::protobuf::util::TimeUtil::kDurationMaxSeconds ||
-			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds)
+			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds ||
+			    (dur.seconds() > 0 && dur.nanos() < 0) || (dur.seconds() < 0 && dur.nanos() > 0))
 				{{ errCause . "err" "value is not a valid duration" }}
 
 
-- 
2.43.0


From 010df682bceca6e6d861fc767612e67a66717c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 23/70] fix: an empty bytes const was ignored

---
 templates/cc/const.go          | 2 +-
 templates/goshared/bytes.go    | 2 +-
 templates/java/bytes.go        | 4 ++--
 templates/shared/functions.go  | 1 +
 templates/shared/reflection.go | 7 +++++++
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/templates/cc/const.go b/templates/cc/const.go
index f3ccbd7..3a38e94 100644
--- a/templates/cc/const.go
+++ b/templates/cc/const.go
@@ -1,7 +1,7 @@
 package cc
 
 const constTpl = `{{ $r := .Rules }}
-	{{ if $r.Const }}
+	{{ if isset $r.Const }}
 		if ({{ accessor . }} != {{ val $r.GetConst }}) {
 			{{ err . "value must equal " (lit $r.GetConst) }}
 		}
diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index e9caa66..c431f00 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -81,7 +81,7 @@ const bytesTpl = `
 		}
 	{{ end }}
 
-	{{ if $r.Const }}
+	{{ if isset $r.Const }}
 		if !bytes.Equal({{ accessor . }}, {{ lit $r.Const }}) {
 			err := {{ err . "value must equal " $r.Const }}
 			if !all { return err }
diff --git a/templates/java/bytes.go b/templates/java/bytes.go
index 52f9f4c..49f37e4 100644
--- a/templates/java/bytes.go
+++ b/templates/java/bytes.go
@@ -1,7 +1,7 @@
 package java
 
 const bytesConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
-{{- if $r.Const }}
+{{- if isset $r.Const }}
 		private final com.google.protobuf.ByteString {{ constantName . "Const" }} = com.google.protobuf.ByteString.copyFrom({{ byteArrayLit $r.GetConst }});
 {{- end -}}
 {{- if $r.In }}
@@ -35,7 +35,7 @@ const bytesTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetIgnoreEmpty }}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
-{{- if $r.Const }}
+{{- if isset $r.Const }}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if $r.Len }}
diff --git a/templates/shared/functions.go b/templates/shared/functions.go
index 2bf111a..36e80b2 100644
--- a/templates/shared/functions.go
+++ b/templates/shared/functions.go
@@ -14,6 +14,7 @@ func RegisterFunctions(tpl *template.Template, params pgs.Parameters) {
 		"context":   rulesContext,
 		"render":    Render(tpl),
 		"has":       Has,
+		"isset":     IsSet,
 		"needs":     Needs,
 		"fileneeds": FileNeeds,
 	})
diff --git a/templates/shared/reflection.go b/templates/shared/reflection.go
index 0e1272c..01cea71 100644
--- a/templates/shared/reflection.go
+++ b/templates/shared/reflection.go
@@ -26,3 +26,10 @@ func Has(msg proto.Message, fld string) bool {
 	return val.IsValid() &&
 		val.FieldByName(fld).IsValid()
 }
+
+// IsSet returns true if the optional rule value is present. Unlike the truth
+// of a template pipeline, this includes empty bytes.
+func IsSet(rule interface{}) bool {
+	val := reflect.ValueOf(rule)
+	return val.IsValid() && !val.IsNil()
+}
-- 
2.43.0


From 54241c94c203dec33af3892602c14de628def6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 24/70] fix: any, duration and timestamp rules were accepted on
 fields of other types

---
 module/checker.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/module/checker.go b/module/checker.go
index 2cda33e..29763db 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -124,10 +124,13 @@ func (m *Module) CheckFieldRules(typ FieldType, rules *validate.FieldRules) {
 	case *validate.FieldRules_Map:
 		m.CheckMap(typ, r.Map)
 	case *validate.FieldRules_Any:
+		m.mustWellKnown(typ, pgs.AnyWKT)
 		m.CheckAny(typ, r.Any)
 	case *validate.FieldRules_Duration:
+		m.mustWellKnown(typ, pgs.DurationWKT)
 		m.CheckDuration(typ, r.Duration)
 	case *validate.FieldRules_Timestamp:
+		m.mustWellKnown(typ, pgs.TimestampWKT)
 		m.CheckTimestamp(typ, r.Timestamp)
 	case nil: // noop
 	default:
@@ -154,6 +157,13 @@ func (m *Module) MustType(typ FieldType, pt pgs.ProtoType, wrapper pgs.WellKnown
 	)
 }
 
+func (m *Module) mustWellKnown(typ FieldType, wkt pgs.WellKnownType) {
+	emb := typ.Embed()
+
+	m.Assert(emb != nil && emb.IsWellKnown() && emb.WellKnownType() == wkt,
+		"expected a field of type ", wkt.Name())
+}
+
 func (m *Module) CheckFloat(r *validate.FloatRules) {
 	m.checkNums(len(r.In), len(r.NotIn), r.Const, r.Lt, r.Lte, r.Gt, r.Gte)
 }
-- 
2.43.0


From bac2782b06a107fcfa63e44fa4406903b4ef6199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 25/70] fix: message rules of items, keys and values were not
 checked

---
 module/checker.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index 29763db..2cd7f5d 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -55,11 +55,6 @@ func (m *Module) CheckRules(msg pgs.Message) {
 		_, err = f.Extension(validate.E_Rules, &rules)
 		m.CheckErr(err, "unable to read validation rules from field")
 
-		if rules.GetMessage() != nil {
-			m.MustType(f.Type(), pgs.MessageT, pgs.UnknownWKT)
-			m.CheckMessage(f, &rules)
-		}
-
 		m.CheckFieldRules(f.Type(), &rules)
 
 		m.Pop()
@@ -71,6 +66,11 @@ func (m *Module) CheckFieldRules(typ FieldType, rules *validate.FieldRules) {
 		return
 	}
 
+	if rules.GetMessage() != nil {
+		m.MustType(typ, pgs.MessageT, pgs.UnknownWKT)
+		m.CheckMessage(typ, rules)
+	}
+
 	switch r := rules.Type.(type) {
 	case *validate.FieldRules_Float:
 		m.MustType(typ, pgs.FloatT, pgs.FloatValueWKT)
@@ -281,9 +281,9 @@ func (m *Module) CheckEnum(ft FieldType, r *validate.EnumRules) {
 	}
 }
 
-func (m *Module) CheckMessage(f pgs.Field, rules *validate.FieldRules) {
-	m.Assert(f.Type().IsEmbed(), "field is not embedded but got message rules")
-	emb := f.Type().Embed()
+func (m *Module) CheckMessage(typ FieldType, rules *validate.FieldRules) {
+	emb := typ.Embed()
+	m.Assert(emb != nil, "field is not embedded but got message rules")
 	if emb != nil && emb.IsWellKnown() {
 		switch emb.WellKnownType() {
 		case pgs.AnyWKT:
-- 
2.43.0


From bb5fc2aa7424416b4016ab6d77f4d8a9dab373ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 26/70] fix: the module prefix was removed everywhere in the
 output path

Only the leading prefix is to go: with module=example.com/m the file of
example.com/m/example.com/m/x belongs in example.com/m/x.
---
 module/validate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/validate.go b/module/validate.go
index 1ca8510..24b660d 100644
--- a/module/validate.go
+++ b/module/validate.go
@@ -51,7 +51,7 @@ func (m *Module) Execute(targets map[string]pgs.File, pkgs map[string]pgs.Packag
 			// implementation-specific FilePathFor implementations.
 			// Ex: Don't generate Java validators for files that don't reference PGV.
 			if out != nil {
-				outPath := strings.TrimLeft(strings.ReplaceAll(out.String(), module, ""), "/")
+				outPath := strings.TrimLeft(strings.TrimPrefix(out.String(), module), "/")
 
 				if opts := f.Descriptor().GetOptions(); opts != nil && opts.GetJavaMultipleFiles() && lang == "java" {
 					// TODO: Only Java supports multiple file generation. If more languages add multiple file generation
-- 
2.43.0


From 2fb87ede510611c72af725c329f6d4a1e09da5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 27/70] fix: M mappings of target files were ignored, and
 package names in them not understood

protoc-gen-go takes M<file>=<import path>[;<name>] for the go_package of
the file, whether or not the file is a target.
---
 module/validate.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/module/validate.go b/module/validate.go
index 24b660d..d331b86 100644
--- a/module/validate.go
+++ b/module/validate.go
@@ -5,6 +5,7 @@ import (
 	"github.com/envoyproxy/protoc-gen-validate/templates/java"
 	pgs "github.com/lyft/protoc-gen-star"
 	pgsgo "github.com/lyft/protoc-gen-star/lang/go"
+	"google.golang.org/protobuf/types/descriptorpb"
 	"strings"
 )
 
@@ -33,6 +34,8 @@ func (m *Module) Execute(targets map[string]pgs.File, pkgs map[string]pgs.Packag
 	m.Assert(lang != "", "`lang` parameter must be set")
 	module := m.Parameters().Str(moduleParam)
 
+	m.applyImportMappings(pkgs)
+
 	// Process file-level templates
 	tpls := templates.Template(m.Parameters())[lang]
 	m.Assert(tpls != nil, "could not find templates for `lang`: ", lang)
@@ -71,4 +74,22 @@ func (m *Module) Execute(targets map[string]pgs.File, pkgs map[string]pgs.Packag
 	return m.Artifacts()
 }
 
+// applyImportMappings makes the M parameters what protoc-gen-go takes them for:
+// the go_package of the file they name, whether it is a target or imported.
+func (m *Module) applyImportMappings(pkgs map[string]pgs.Package) {
+	for _, pkg := range pkgs {
+		for _, f := range pkg.Files() {
+			param := "M" + f.InputPath().String()
+			if imp, ok := m.Parameters()[param]; ok {
+				desc := f.Descriptor()
+				if desc.Options == nil {
+					desc.Options = &descriptorpb.FileOptions{}
+				}
+				desc.Options.GoPackage = &imp
+				delete(m.Parameters(), param)
+			}
+		}
+	}
+}
+
 var _ pgs.Module = (*Module)(nil)
-- 
2.43.0


From 876d216764f06df4d7887f8b75a6c773301f12b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 28/70] fix: Java validator names differed from protoc's for
 unusual file and message names

A reflective index then finds no validator and takes every message for valid.
---
 templates/java/register.go | 71 +++++++++++++-------------------------
 1 file changed, 24 insertions(+), 47 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 7bea3f3..23d613a 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -161,23 +161,33 @@ func classNameFile(f pgs.File) string {
 }
 
 func classNameMessage(m pgs.Message) string {
-	className := m.Name().String()
-	// This is really silly, but when the multiple files option is true, protoc puts underscores in file names.
-	// When multiple files is false, underscores are stripped. Short of rewriting all the name sanitization
-	// logic for java, using "UnderscoreUnderscoreUnderscore" is an escape sequence seems to work with an extremely
-	// small likelihood of name conflict.
-	className = strings.Replace(className, "_", "UnderscoreUnderscoreUnderscore", -1)
-	className = sanitizeClassName(className)
-	className = strings.Replace(className, "UnderscoreUnderscoreUnderscore", "_", -1)
-	return className
+	// protoc takes message names as they are.
+	return m.Name().String()
 }
 
+// sanitizeClassName turns a file name into a class name as protoc does.
 func sanitizeClassName(className string) string {
-	className = makeInvalidClassnameCharactersUnderscores(className)
-	className = underscoreBetweenConsecutiveUppercase(className)
-	className = strcase.ToCamel(strcase.ToSnake(className))
-	className = upperCaseAfterNumber(className)
-	return className
+	var sb strings.Builder
+	capNext := true
+	for _, c := range className {
+		switch {
+		case c >= 'a' && c <= 'z':
+			if capNext {
+				c = unicode.ToUpper(c)
+			}
+			sb.WriteRune(c)
+			capNext = false
+		case c >= 'A' && c <= 'Z':
+			sb.WriteRune(c)
+			capNext = false
+		case c >= '0' && c <= '9':
+			sb.WriteRune(c)
+			capNext = true
+		default:
+			capNext = true
+		}
+	}
+	return sb.String()
 }
 
 func javaPackage(file pgs.File) string {
@@ -218,24 +228,6 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	return entity.Name().String()
 }
 
-// Replace invalid identifier characters with an underscore
-func makeInvalidClassnameCharactersUnderscores(name string) string {
-	var sb string
-	for _, c := range name {
-		switch {
-		case c >= '0' && c <= '9':
-			sb += string(c)
-		case c >= 'a' && c <= 'z':
-			sb += string(c)
-		case c >= 'A' && c <= 'Z':
-			sb += string(c)
-		default:
-			sb += "_"
-		}
-	}
-	return sb
-}
-
 func upperCaseAfterNumber(name string) string {
 	var sb string
 	var p rune
@@ -251,21 +243,6 @@ func upperCaseAfterNumber(name string) string {
 	return sb
 }
 
-func underscoreBetweenConsecutiveUppercase(name string) string {
-	var sb string
-	var p rune
-
-	for _, c := range name {
-		if unicode.IsUpper(p) && unicode.IsUpper(c) {
-			sb += "_" + string(c)
-		} else {
-			sb += string(c)
-		}
-		p = c
-	}
-	return sb
-}
-
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-- 
2.43.0


From a7125dd250688ea250e7b58e62bc9847362dc2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 29/70] fix: the Java outer class name ignored conflicts with
 nested types

---
 templates/java/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 23d613a..94fd776 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -246,13 +246,13 @@ func upperCaseAfterNumber(name string) string {
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-	for _, enum := range file.Enums() {
+	for _, enum := range file.AllEnums() {
 		if enum.Name().String() == outerClassName {
 			conflict = true
 		}
 	}
 
-	for _, message := range file.Messages() {
+	for _, message := range file.AllMessages() {
 		if message.Name().String() == outerClassName {
 			conflict = true
 		}
-- 
2.43.0


From 1b25ecf5df64bd22c7625dae06c7866ba5395cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 30/70] fix: in, not_in and pattern rules of items, keys and
 values did not compile

Lookup tables were declared for items of string and enum type only, and the
patterns of the keys and the values of a map shared one name.
---
 templates/cc/any.go            |   4 +-
 templates/cc/bytes.go          |   2 +-
 templates/cc/duration.go       |   4 +-
 templates/cc/in.go             |   4 +-
 templates/cc/msg.go            | 105 +++++++++------------------------
 templates/cc/register.go       |  60 +++++++++++--------
 templates/cc/repeated.go       |   6 +-
 templates/cc/string.go         |   2 +-
 templates/goshared/any.go      |   4 +-
 templates/goshared/bytes.go    |   6 +-
 templates/goshared/duration.go |   4 +-
 templates/goshared/in.go       |   4 +-
 templates/goshared/msg.go      |  78 +++++-------------------
 templates/goshared/register.go |  69 +++++++++++-----------
 templates/goshared/repeated.go |   6 +-
 templates/goshared/string.go   |   2 +-
 16 files changed, 137 insertions(+), 223 deletions(-)

diff --git a/templates/cc/any.go b/templates/cc/any.go
index 2dd32ca..0640b40 100644
--- a/templates/cc/any.go
+++ b/templates/cc/any.go
@@ -4,12 +4,12 @@ const anyTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ template "required" . }}
 
 	{{ if $r.In }}
-		{{ $table := lookup $f "InLookup" }}
+		{{ $table := lookup . "InLookup" }}
 		if ({{ hasAccessor . }} && {{ $table }}.find({{ accessor . }}.type_url()) == {{ $table }}.end()) {
 			{{ err . "type URL must be in list " $r.In }}
 		}
 	{{ else if $r.NotIn }}
-		{{ $table := lookup $f "NotInLookup" }}
+		{{ $table := lookup . "NotInLookup" }}
 		if ({{ hasAccessor . }} && {{ $table }}.find({{ accessor . }}.type_url()) != {{ $table }}.end()) {
 			{{ err . "type URL must not be in list " $r.NotIn }}
 		}
diff --git a/templates/cc/bytes.go b/templates/cc/bytes.go
index 12e2e30..5e830ac 100644
--- a/templates/cc/bytes.go
+++ b/templates/cc/bytes.go
@@ -69,7 +69,7 @@ const bytesTpl = `
         {{ if $r.Pattern }}
         {
                 if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
-                                    {{ lookup $f "Pattern" }})) {
+                                    {{ lookup . "Pattern" }})) {
 		        {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 	        }
         }
diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 3d198e0..0e6aefe 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -77,10 +77,10 @@ const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 
 			{{ if $r.In }}
-				if ({{ lookup $f "InLookup" }}.find(dur) == {{ lookup $f "InLookup" }}.end())
+				if ({{ lookup . "InLookup" }}.find(dur) == {{ lookup . "InLookup" }}.end())
 					{{ err . "value must be in list " $r.In }}
 			{{ else if $r.NotIn }}
-				if ({{ lookup $f "NotInLookup" }}.find(dur) != {{ lookup $f "NotInLookup" }}.end())
+				if ({{ lookup . "NotInLookup" }}.find(dur) != {{ lookup . "NotInLookup" }}.end())
 					{{ err . "value must not be in list " $r.NotIn }}
 			{{ end }}
 	        }
diff --git a/templates/cc/in.go b/templates/cc/in.go
index 9a35e82..2f93cb0 100644
--- a/templates/cc/in.go
+++ b/templates/cc/in.go
@@ -2,11 +2,11 @@ package cc
 
 const inTpl = `{{ $f := .Field -}}{{ $r := .Rules -}}
 	{{- if $r.In }}
-		if (!pgv::InSet({{ lookup $f "InLookup" }}, static_cast<decltype({{ lookup $f "InLookup" }})::key_type>({{ accessor . }}))) {
+		if (!pgv::InSet({{ lookup . "InLookup" }}, static_cast<decltype({{ lookup . "InLookup" }})::key_type>({{ accessor . }}))) {
 			{{ err . "value must be in list " $r.In }}
 		}
 	{{- else if $r.NotIn }}
-		if (pgv::InSet({{ lookup $f "NotInLookup" }}, static_cast<decltype({{ lookup $f "NotInLookup" }})::key_type>({{ accessor . }}))) {
+		if (pgv::InSet({{ lookup . "NotInLookup" }}, static_cast<decltype({{ lookup . "NotInLookup" }})::key_type>({{ accessor . }}))) {
 			{{ err . "value must not be in list " $r.NotIn }}
 		}
 	{{- end }}
diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index a54450e..3daf2c2 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -14,83 +14,10 @@ const msgTpl = `
 	{{ cmt "Validate checks the field values on " (class .) " with the rules defined in the proto definition for this message. If any rules are violated, the return value is false and an error message is written to the input string argument." }}
 {{- end -}}
 
-{{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
-	{{ if has .Rules "In" }}{{ if .Rules.In }}
-	const std::set<{{ inType .Field .Rules.In }}> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-	const std::set<{{ inType .Field .Rules.NotIn }}> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "In" }} {{ if .Rules.Items.GetString_.In }}
-	const std::set<string> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.Items.GetString_.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "In" }} {{ if .Rules.Items.GetEnum.In }}
-	const std::set<{{ inType .Field .Rules.Items.GetEnum.In }}> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.Items.GetEnum.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "NotIn" }} {{ if .Rules.Items.GetString_.NotIn }}
-	const std::set<string> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.Items.GetString_.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "NotIn" }} {{ if .Rules.Items.GetEnum.NotIn }}
-	const std::set<{{ inType .Field .Rules.Items.GetEnum.NotIn }}> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.Items.GetEnum.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-        {{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
-                                                            sizeof({{ lit .Rules.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-        {{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Items.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Items.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-        {{ end }}{{ end }}
-
-        {{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
-	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Keys.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Keys.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
-	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Values.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Values.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
+{{ range .Fields }}{{ with (context .) }}
+	{{ template "lookups" . }}
+	{{ if eq .Typ "repeated" }}{{ template "lookups" (.Elem "" "") }}{{ end }}
+	{{ if eq .Typ "map" }}{{ template "lookups" (.Key "" "") }}{{ template "lookups" (.Elem "" "") }}{{ end }}
 {{ end }}{{ end }}
 
 bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
@@ -122,3 +49,27 @@ bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
 }
 {{- end -}}
 `
+
+// lookupsTpl declares what the rules of a context are looked up in.
+const lookupsTpl = `{{ $ctx := . }}
+	{{ if has .Rules "In" }}{{ if .Rules.In }}
+	const std::set<{{ inType . .Rules.In }}> {{ lookup . "InLookup" }} = {
+			{{- range .Rules.In }}
+				{{ inKey $ctx . }},
+			{{- end }}
+		};
+	{{ end }}{{ end }}
+
+	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
+	const std::set<{{ inType . .Rules.NotIn }}> {{ lookup . "NotInLookup" }} = {
+			{{- range .Rules.NotIn }}
+				{{ inKey $ctx . }},
+			{{- end }}
+		};
+	{{ end }}{{ end }}
+
+	{{ if has .Rules "Pattern" }}{{ if .Rules.Pattern }}
+	const re2::RE2 {{ lookup . "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
+		sizeof({{ lit .Rules.GetPattern }}) - 1));
+	{{ end }}{{ end }}
+`
diff --git a/templates/cc/register.go b/templates/cc/register.go
index d3e3c83..6d289f6 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -34,6 +34,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"hasAccessor":   fns.hasAccessor,
 		"inKey":         fns.inKey,
 		"inType":        fns.inType,
+		"itemType":      fns.itemType,
 		"isBytes":       fns.isBytes,
 		"lit":           fns.lit,
 		"lookup":        fns.lookup,
@@ -52,6 +53,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 	})
 	template.Must(tpl.Parse(moduleFileTpl))
 	template.Must(tpl.New("msg").Parse(msgTpl))
+	template.Must(tpl.New("lookups").Parse(lookupsTpl))
 	template.Must(tpl.New("const").Parse(constTpl))
 	template.Must(tpl.New("ltgt").Parse(ltgtTpl))
 	template.Must(tpl.New("in").Parse(inTpl))
@@ -219,7 +221,12 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 	return strings.Join(output, "\n")
 }
 
-func (fns CCFuncs) lookup(f pgs.Field, name string) string {
+func (fns CCFuncs) lookup(ctx shared.RuleContext, name string) string {
+	f := ctx.Field
+	if ctx.OnKey {
+		name = "Key" + name
+	}
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
 		pgsgo.PGGUpperCamelCase(f.Message().Name()),
@@ -312,21 +319,28 @@ func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 		strings.ReplaceAll(pgsgo.PGGUpperCamelCase(f.Name()).String(), "_", "")))
 }
 
-func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
+func (fns CCFuncs) inType(ctx shared.RuleContext, x interface{}) string {
+	switch x.(type) {
+	case []string, [][]byte:
+		return "string"
+	case []*durationpb.Duration:
+		return "pgv::protobuf_wkt::Duration"
+	}
+
+	if ctx.Typ == "enum" {
+		return fns.cType(ctx.Field.Type())
+	}
+
+	return fns.cTypeOfString(reflect.TypeOf(x).Elem().String())
+}
+
+// itemType is the type of the items of a repeated field.
+func (fns CCFuncs) itemType(f pgs.Field) string {
 	switch f.Type().ProtoType() {
 	case pgs.BytesT:
 		return "string"
 	case pgs.MessageT:
-		switch x.(type) {
-		case []string, [][]byte:
-			return "string"
-		case []float32, []float64, []int32, []int64, []uint32, []uint64:
-			return fns.cTypeOfString(reflect.TypeOf(x).Elem().String())
-		case []*durationpb.Duration:
-			return "pgv::protobuf_wkt::Duration"
-		default:
-			return fns.className(f.Type().Element().Embed())
-		}
+		return fns.className(f.Type().Element().Embed())
 	default:
 		return fns.cType(f.Type())
 	}
@@ -383,20 +397,16 @@ func (fns CCFuncs) cTypeOfString(s string) string {
 	}
 }
 
-func (fns CCFuncs) inKey(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
-	case pgs.MessageT:
-		switch x := x.(type) {
-		case *durationpb.Duration:
-			return fns.durLit(x)
-		default:
-			return fns.val(x)
-		}
-	case pgs.EnumT:
-		return fmt.Sprintf("%s(%d)", fns.cType(f.Type()), x.(int32))
+func (fns CCFuncs) inKey(ctx shared.RuleContext, x interface{}) string {
+	switch x := x.(type) {
+	case []byte:
+		return fns.byteStr(x)
+	case *durationpb.Duration:
+		return fns.durLit(x)
 	default:
+		if ctx.Typ == "enum" {
+			return fmt.Sprintf("%s(%d)", fns.cType(ctx.Field.Type()), x)
+		}
 		return fns.val(x)
 	}
 }
diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 477cd93..3acef60 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -1,7 +1,7 @@
 package cc
 
 const repTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := inType $f nil }}
+	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := itemType $f }}
 	{{- if $f.Type.Element.IsEnum }}{{ $typ = "int" }}{{ end }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
@@ -43,7 +43,7 @@ const repTpl = `
 	};
 
 	// Save a set of references to avoid copying overhead
-	std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup $f "Unique" }};
+	std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup . "Unique" }};
 	{{ end }}
 
 	{{ if or $r.GetUnique (ne (.Elem "" "").Typ "none") }}
@@ -52,7 +52,7 @@ const repTpl = `
 			(void)item;
 
 			{{ if $r.GetUnique }}
-				auto p = {{ lookup $f "Unique" }}.emplace(const_cast<{{ $typ }}&>(item));
+				auto p = {{ lookup . "Unique" }}.emplace(const_cast<{{ $typ }}&>(item));
 				if (p.second == false) {
 					{{ errIdx . "i" "repeated value must contain unique items" }}
 				}
diff --git a/templates/cc/string.go b/templates/cc/string.go
index 712540a..65829a9 100644
--- a/templates/cc/string.go
+++ b/templates/cc/string.go
@@ -112,7 +112,7 @@ const strTpl = `
         {{ if $r.Pattern }}
         {
                 if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
-                                    {{ lookup $f "Pattern" }})) {
+                                    {{ lookup . "Pattern" }})) {
 		        {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 	        }
         }
diff --git a/templates/goshared/any.go b/templates/goshared/any.go
index a120592..15817da 100644
--- a/templates/goshared/any.go
+++ b/templates/goshared/any.go
@@ -5,13 +5,13 @@ const anyTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 	if a := {{ accessor . }}; a != nil {
 		{{ if $r.In }}
-			if _, ok := {{ lookup $f "InLookup" }}[a.GetTypeUrl()]; !ok {
+			if _, ok := {{ lookup . "InLookup" }}[a.GetTypeUrl()]; !ok {
 				err := {{ err . "type URL must be in list " $r.In }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else if $r.NotIn }}
-			if _, ok := {{ lookup $f "NotInLookup" }}[a.GetTypeUrl()]; ok {
+			if _, ok := {{ lookup . "NotInLookup" }}[a.GetTypeUrl()]; ok {
 				err := {{ err . "type URL must not be in list " $r.NotIn }}
 				if !all { return err }
 				errors = append(errors, err)
diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index c431f00..e2b70f8 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -68,13 +68,13 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[string({{ accessor . }})]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[string({{ accessor . }})]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[string({{ accessor . }})]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[string({{ accessor . }})]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
@@ -110,7 +110,7 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-	if !{{ lookup $f "Pattern" }}.Match({{ accessor . }}) {
+	if !{{ lookup . "Pattern" }}.Match({{ accessor . }}) {
 		err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 		if !all { return err }
 		errors = append(errors, err)
diff --git a/templates/goshared/duration.go b/templates/goshared/duration.go
index c039ab5..758dbb0 100644
--- a/templates/goshared/duration.go
+++ b/templates/goshared/duration.go
@@ -103,13 +103,13 @@ const durationcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 
 			{{ if $r.In }}
-				if _, ok := {{ lookup $f "InLookup" }}[dur]; !ok {
+				if _, ok := {{ lookup . "InLookup" }}[dur]; !ok {
 					err := {{ err . "value must be in list " $r.In }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else if $r.NotIn }}
-				if _, ok := {{ lookup $f "NotInLookup" }}[dur]; ok {
+				if _, ok := {{ lookup . "NotInLookup" }}[dur]; ok {
 					err := {{ err . "value must not be in list " $r.NotIn }}
 					if !all { return err }
 					errors = append(errors, err)
diff --git a/templates/goshared/in.go b/templates/goshared/in.go
index b6fdfa4..c72e670 100644
--- a/templates/goshared/in.go
+++ b/templates/goshared/in.go
@@ -2,13 +2,13 @@ package goshared
 
 const inTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[{{ accessor . }}]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[{{ accessor . }}]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[{{ accessor . }}]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[{{ accessor . }}]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index 4e09f77..655f3ff 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -132,79 +132,33 @@ var _ interface{
 	ErrorName() string
 } = {{ errname . }}{}
 
-{{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
+{{ range .Fields }}{{ with (context .) }}
+	{{ template "lookups" . }}
+	{{ if eq .Typ "repeated" }}{{ template "lookups" (.Elem "" "") }}{{ end }}
+	{{ if eq .Typ "map" }}{{ template "lookups" (.Key "" "") }}{{ template "lookups" (.Elem "" "") }}{{ end }}
+{{ end }}{{ end }}
+{{- end -}}
+`
+
+// lookupsTpl declares what the rules of a context are looked up in.
+const lookupsTpl = `{{ $ctx := . }}
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
+		var {{ lookup . "InLookup" }} = map[{{ inType . .Rules.In }}]struct{}{
 			{{- range .Rules.In }}
-				{{ inKey $f . }}: {},
+				{{ inKey $ctx . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
+		var {{ lookup . "NotInLookup" }} = map[{{ inType . .Rules.NotIn }}]struct{}{
 			{{- range .Rules.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Items.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "In" }} {{ if .Rules.Items.GetString_.In }}
-		var {{ lookup .Field "InLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "In" }} {{ if .Rules.Items.GetEnum.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.In }}]struct{}{
-			{{- range .Rules.Items.GetEnum.In }}
-				{{ inKey $f . }}: {},
+				{{ inKey $ctx . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "NotIn" }} {{ if .Rules.Items.GetString_.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "NotIn" }} {{ if .Rules.Items.GetEnum.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.NotIn }}]struct{}{
-			{{- range .Rules.Items.GetEnum.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
-	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Keys.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
 
-	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
-	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Values.GetString_.GetPattern }})
+	{{ if has .Rules "Pattern" }}{{ if .Rules.Pattern }}
+		var {{ lookup . "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
 	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-{{ end }}{{ end }}
-{{- end -}}
 `
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 4348494..66d597f 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -51,6 +51,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	})
 
 	template.Must(tpl.New("msg").Parse(msgTpl))
+	template.Must(tpl.New("lookups").Parse(lookupsTpl))
 	template.Must(tpl.New("const").Parse(constTpl))
 	template.Must(tpl.New("ltgt").Parse(ltgtTpl))
 	template.Must(tpl.New("in").Parse(inTpl))
@@ -154,7 +155,12 @@ func (fns goSharedFuncs) errIdx(ctx shared.RuleContext, idx string, reason ...in
 	return fns.errIdxCause(ctx, idx, "nil", reason...)
 }
 
-func (fns goSharedFuncs) lookup(f pgs.Field, name string) string {
+func (fns goSharedFuncs) lookup(ctx shared.RuleContext, name string) string {
+	f := ctx.Field
+	if ctx.OnKey {
+		name = "Key" + name
+	}
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
 		fns.Name(f.Message()),
@@ -209,44 +215,37 @@ func (fns goSharedFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fns.OneofOption(f)).Pointer()
 }
 
-func (fns goSharedFuncs) inType(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
+func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
+	switch x.(type) {
+	case [][]byte:
 		return "string"
-	case pgs.MessageT:
-		switch x.(type) {
-		case []*durationpb.Duration:
-			return "time.Duration"
-		case [][]byte:
-			return "string"
-		default:
-			return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
-		}
-	case pgs.EnumT:
-		if f.Type().IsRepeated() {
-			return strings.TrimLeft(fns.Type(f).String(), "[]")
-		} else {
-			return fns.Type(f).String()
-		}
-	default:
-		return fns.Type(f).String()
+	case []*durationpb.Duration:
+		return "time.Duration"
 	}
+
+	if ctx.Typ == "enum" {
+		return fns.enumType(ctx.Field)
+	}
+
+	return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
 }
 
-func (fns goSharedFuncs) inKey(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
-	case pgs.MessageT:
-		switch x := x.(type) {
-		case *durationpb.Duration:
-			dur := x.AsDuration()
-			return fns.lit(int64(dur))
-		case []byte:
-			return fns.byteStr(x)
-		default:
-			return fns.lit(x)
-		}
+// enumType is the type of an enum field, or of its elements.
+func (fns goSharedFuncs) enumType(f pgs.Field) string {
+	typ := fns.Type(f)
+	if f.Type().Element() != nil {
+		typ = typ.Element()
+	}
+
+	return typ.Value().String()
+}
+
+func (fns goSharedFuncs) inKey(ctx shared.RuleContext, x interface{}) string {
+	switch x := x.(type) {
+	case []byte:
+		return fns.byteStr(x)
+	case *durationpb.Duration:
+		return fns.lit(int64(x.AsDuration()))
 	default:
 		return fns.lit(x)
 	}
diff --git a/templates/goshared/repeated.go b/templates/goshared/repeated.go
index a98f350..c5a7ce5 100644
--- a/templates/goshared/repeated.go
+++ b/templates/goshared/repeated.go
@@ -36,7 +36,7 @@ const repTpl = `
 	{{ end }}
 
 	{{ if $r.GetUnique }}
-		{{ lookup $f "Unique" }} := {{ if isBytes $f.Type.Element -}}
+		{{ lookup . "Unique" }} := {{ if isBytes $f.Type.Element -}}
 			make(map[string]struct{}, len({{ accessor . }}))
 		{{ else -}}
 			make(map[{{ (typ $f).Element }}]struct{}, len({{ accessor . }}))
@@ -47,12 +47,12 @@ const repTpl = `
 		for idx, item := range {{ accessor . }} {
 			_, _ = idx, item
 			{{ if $r.GetUnique }}
-				if _, exists := {{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
+				if _, exists := {{ lookup . "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
 					err := {{ errIdx . "idx" "repeated value must contain unique items" }}
 					if !all { return err }
 					errors = append(errors, err)
 				} else {
-					{{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
+					{{ lookup . "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
 				}
 			{{ end }}
 
diff --git a/templates/goshared/string.go b/templates/goshared/string.go
index 8df69b3..d64ba92 100644
--- a/templates/goshared/string.go
+++ b/templates/goshared/string.go
@@ -176,7 +176,7 @@ const strTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-		if !{{ lookup $f "Pattern" }}.MatchString({{ accessor . }}) {
+		if !{{ lookup . "Pattern" }}.MatchString({{ accessor . }}) {
 			err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 			if !all { return err }
 			errors = append(errors, err)
-- 
2.43.0


From ddec0d222fd1b0fa95f39ee70a5af37fa473c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 31/70] fix: repeated values in an in or not_in list did not
 compile in Go

---
 templates/goshared/msg.go      | 10 +++++-----
 templates/goshared/register.go | 19 +++++++++++++++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index 655f3ff..7e6aaf3 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -141,19 +141,19 @@ var _ interface{
 `
 
 // lookupsTpl declares what the rules of a context are looked up in.
-const lookupsTpl = `{{ $ctx := . }}
+const lookupsTpl = `
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
 		var {{ lookup . "InLookup" }} = map[{{ inType . .Rules.In }}]struct{}{
-			{{- range .Rules.In }}
-				{{ inKey $ctx . }}: {},
+			{{- range inKeys .Rules.In }}
+				{{ . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
 		var {{ lookup . "NotInLookup" }} = map[{{ inType . .Rules.NotIn }}]struct{}{
-			{{- range .Rules.NotIn }}
-				{{ inKey $ctx . }}: {},
+			{{- range inKeys .Rules.NotIn }}
+				{{ . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 66d597f..bb7a7a5 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -32,7 +32,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"errIdxCause":   fns.errIdxCause,
 		"errname":       fns.errName,
 		"multierrname":  fns.multiErrName,
-		"inKey":         fns.inKey,
+		"inKeys":        fns.inKeys,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
 		"lit":           fns.lit,
@@ -240,7 +240,22 @@ func (fns goSharedFuncs) enumType(f pgs.Field) string {
 	return typ.Value().String()
 }
 
-func (fns goSharedFuncs) inKey(ctx shared.RuleContext, x interface{}) string {
+// inKeys returns the literals of a list, without repetitions: Go takes
+// duplicate keys in a map literal for an error.
+func (fns goSharedFuncs) inKeys(list interface{}) []string {
+	var out []string
+	seen := map[string]bool{}
+	for i, val := 0, reflect.ValueOf(list); i < val.Len(); i++ {
+		if key := fns.inKey(val.Index(i).Interface()); !seen[key] {
+			seen[key] = true
+			out = append(out, key)
+		}
+	}
+
+	return out
+}
+
+func (fns goSharedFuncs) inKey(x interface{}) string {
 	switch x := x.(type) {
 	case []byte:
 		return fns.byteStr(x)
-- 
2.43.0


From 0dfa7756eea2278259ef5adf704ecdb58467a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 32/70] fix: infinite, NaN and negative zero constants did not
 compile

-0 stood beside 0 in lookup tables, and +Inf is no literal of Go or C++.
---
 templates/cc/file.go           |  1 +
 templates/cc/register.go       | 17 +++++++++++++++--
 templates/go/file.go           |  2 ++
 templates/goshared/ltgt.go     | 24 ++++++++++++------------
 templates/goshared/register.go | 14 ++++++++++++++
 5 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index a85cf82..416c6d3 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -54,6 +54,7 @@ const headerFileTpl = `// Code generated by protoc-gen-validate
 #pragma once
 
 #include <algorithm>
+#include <limits>
 #include <string>
 #include <sstream>
 #include <unordered_set>
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 6d289f6..55e3e8d 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -2,6 +2,7 @@ package cc
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -258,8 +259,20 @@ func (fns CCFuncs) lit(x interface{}) string {
 		default:
 			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 		}
-	case reflect.Float32:
-		return strconv.FormatFloat(val.Float(), 'e', -1, 32) + "F"
+	case reflect.Float32, reflect.Float64:
+		typ := fns.cTypeOfString(val.Kind().String())
+		switch f := val.Float(); {
+		case math.IsNaN(f):
+			return fmt.Sprintf("std::numeric_limits<%s>::quiet_NaN()", typ)
+		case math.IsInf(f, 1):
+			return fmt.Sprintf("std::numeric_limits<%s>::infinity()", typ)
+		case math.IsInf(f, -1):
+			return fmt.Sprintf("-std::numeric_limits<%s>::infinity()", typ)
+		case typ == "float":
+			return strconv.FormatFloat(f, 'e', -1, 32) + "F"
+		default:
+			return fmt.Sprint(f)
+		}
 	default:
 		return fmt.Sprint(x)
 	}
diff --git a/templates/go/file.go b/templates/go/file.go
index 81cbf64..10924be 100644
--- a/templates/go/file.go
+++ b/templates/go/file.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 	"net"
 	"net/mail"
 	"net/url"
@@ -29,6 +30,7 @@ var (
 	_ = bytes.MinRead
 	_ = errors.New("")
 	_ = fmt.Print
+	_ = math.Pi
 	_ = utf8.UTFMax
 	_ = (*regexp.Regexp)(nil)
 	_ = (*strings.Reader)(nil)
diff --git a/templates/goshared/ltgt.go b/templates/goshared/ltgt.go
index 06ca63b..f9b57ce 100644
--- a/templates/goshared/ltgt.go
+++ b/templates/goshared/ltgt.go
@@ -4,13 +4,13 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ if $r.Lt }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLt $r.GetGt }}
-				if val := {{ accessor . }};  val <= {{ $r.Gt }} || val >= {{ $r.Lt }} {
+				if val := {{ accessor . }};  val <= {{ lit $r.GetGt }} || val >= {{ lit $r.GetLt }} {
 					err := {{ err . "value must be inside range (" $r.GetGt ", " $r.GetLt ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val >= {{ $r.Lt }} && val <= {{ $r.Gt }} {
+				if val := {{ accessor . }}; val >= {{ lit $r.GetLt }} && val <= {{ lit $r.GetGt }} {
 					err := {{ err . "value must be outside range [" $r.GetLt ", " $r.GetGt "]" }}
 					if !all { return err }
 					errors = append(errors, err)
@@ -18,20 +18,20 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{  if gt $r.GetLt $r.GetGte }}
-				if val := {{ accessor . }};  val < {{ $r.Gte }} || val >= {{ $r.Lt }} {
+				if val := {{ accessor . }};  val < {{ lit $r.GetGte }} || val >= {{ lit $r.GetLt }} {
 					err := {{ err . "value must be inside range [" $r.GetGte ", " $r.GetLt ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val >= {{ $r.Lt }} && val < {{ $r.Gte }} {
+				if val := {{ accessor . }}; val >= {{ lit $r.GetLt }} && val < {{ lit $r.GetGte }} {
 					err := {{ err . "value must be outside range [" $r.GetLt ", " $r.GetGte ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ end }}
 		{{ else }}
-			if {{ accessor . }} >= {{ $r.Lt }} {
+			if {{ accessor . }} >= {{ lit $r.GetLt }} {
 				err := {{ err . "value must be less than " $r.GetLt }}
 				if !all { return err }
 				errors = append(errors, err)
@@ -40,13 +40,13 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ else if $r.Lte }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLte $r.GetGt }}
-				if val := {{ accessor . }};  val <= {{ $r.Gt }} || val > {{ $r.Lte }} {
+				if val := {{ accessor . }};  val <= {{ lit $r.GetGt }} || val > {{ lit $r.GetLte }} {
 					err := {{ err . "value must be inside range (" $r.GetGt ", " $r.GetLte "]" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val > {{ $r.Lte }} && val <= {{ $r.Gt }} {
+				if val := {{ accessor . }}; val > {{ lit $r.GetLte }} && val <= {{ lit $r.GetGt }} {
 					err := {{ err . "value must be outside range (" $r.GetLte ", " $r.GetGt "]" }}
 					if !all { return err }
 					errors = append(errors, err)
@@ -54,33 +54,33 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{ if gt $r.GetLte $r.GetGte }}
-				if val := {{ accessor . }};  val < {{ $r.Gte }} || val > {{ $r.Lte }} {
+				if val := {{ accessor . }};  val < {{ lit $r.GetGte }} || val > {{ lit $r.GetLte }} {
 					err := {{ err . "value must be inside range [" $r.GetGte ", " $r.GetLte "]" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val > {{ $r.Lte }} && val < {{ $r.Gte }} {
+				if val := {{ accessor . }}; val > {{ lit $r.GetLte }} && val < {{ lit $r.GetGte }} {
 					err := {{ err . "value must be outside range (" $r.GetLte ", " $r.GetGte ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ end }}
 		{{ else }}
-			if {{ accessor . }} > {{ $r.Lte }} {
+			if {{ accessor . }} > {{ lit $r.GetLte }} {
 				err := {{ err . "value must be less than or equal to " $r.GetLte }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.Gt }}
-		if {{ accessor . }} <= {{ $r.Gt }} {
+		if {{ accessor . }} <= {{ lit $r.GetGt }} {
 			err := {{ err . "value must be greater than " $r.GetGt }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.Gte }}
-		if {{ accessor . }} < {{ $r.Gte }} {
+		if {{ accessor . }} < {{ lit $r.GetGte }} {
 			err := {{ err . "value must be greater than or equal to " $r.GetGte }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index bb7a7a5..69ed95d 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -2,6 +2,7 @@ package goshared
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strings"
 	"text/template"
@@ -191,6 +192,19 @@ func (fns goSharedFuncs) lit(x interface{}) string {
 			els[i] = fns.lit(val.Index(i).Interface())
 		}
 		return fmt.Sprintf("%T{%s}", val.Interface(), strings.Join(els, ", "))
+	case reflect.Float32, reflect.Float64:
+		switch f := val.Float(); {
+		case math.IsNaN(f):
+			return fmt.Sprintf("%s(math.NaN())", val.Kind())
+		case math.IsInf(f, 1):
+			return fmt.Sprintf("%s(math.Inf(1))", val.Kind())
+		case math.IsInf(f, -1):
+			return fmt.Sprintf("%s(math.Inf(-1))", val.Kind())
+		case f == 0: // -0 is no literal of its own
+			return "0"
+		default:
+			return fmt.Sprint(val.Interface())
+		}
 	default:
 		return fmt.Sprint(x)
 	}
-- 
2.43.0


From 50720e39cc8407f2fa48b0e9cc660b07b268f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 33/70] fix: C++ code for keyword names and for files without a
 package did not compile

---
 templates/cc/file.go     | 16 ++++++++--------
 templates/cc/register.go | 40 +++++++++++++++++++++++++++++++---------
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index 416c6d3..fcfc64a 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -34,17 +34,17 @@ pgv::Validator<{{ class . }}> {{ staticVarName . }}(static_cast<bool(*)(const {{
 } // namespace validate
 } // namespace pgv
 
-{{ range .Package.ProtoName.Split }}
+{{ with .Package.ProtoName }}{{ range .Split }}
 namespace {{ . }} {
-{{- end }}
+{{- end }}{{ end }}
 
 {{ range .AllMessages }}
 	{{- template "msg" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ with .Package.ProtoName }}{{ range .Split -}}
 } // namespace
-{{ end }}
+{{ end }}{{ end }}
 `
 
 const headerFileTpl = `// Code generated by protoc-gen-validate
@@ -63,9 +63,9 @@ const headerFileTpl = `// Code generated by protoc-gen-validate
 #include "validate/validate.h"
 #include "{{ output .File ".h" }}"
 
-{{ range .Package.ProtoName.Split }}
+{{ with .Package.ProtoName }}{{ range .Split }}
 namespace {{ . }} {
-{{- end }}
+{{- end }}{{ end }}
 
 using std::string;
 
@@ -73,9 +73,9 @@ using std::string;
 	{{- template "decl" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ with .Package.ProtoName }}{{ range .Split -}}
 } // namespace
-{{ end }}
+{{ end }}{{ end }}
 
 #define X_{{ .Package.ProtoName.ScreamingSnakeCase }}_{{ .File.InputPath.BaseName | screaming_snake_case }}(X) \
 {{ range .AllMessages -}}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 55e3e8d..d2a21a2 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -120,14 +120,32 @@ func CcFilePath(f pgs.File, ctx pgsgo.Context, tpl *template.Template) *pgs.File
 func (fns CCFuncs) methodName(name interface{}) string {
 	// protoc lower-cases accessor names.
 	nameStr := strings.ToLower(fmt.Sprintf("%s", name))
-	switch nameStr {
-	case "const":
-		return "const_"
-	case "inline":
-		return "inline_"
-	default:
-		return nameStr
+	return resolveKeyword(nameStr)
+}
+
+// keywords are the names protoc appends an underscore to.
+var keywords = func() map[string]bool {
+	out := map[string]bool{}
+	for _, k := range strings.Fields(`
+		NULL alignas alignof and and_eq asm auto bitand bitor bool break case
+		catch char class compl const constexpr const_cast continue decltype
+		default delete do double dynamic_cast else enum explicit export extern
+		false float for friend goto if inline int long mutable namespace new
+		noexcept not not_eq nullptr operator or or_eq private protected public
+		register reinterpret_cast return short signed sizeof static static_assert
+		static_cast struct switch template this thread_local throw true try
+		typedef typeid typename union unsigned using virtual void volatile wchar_t
+		while xor xor_eq`) {
+		out[k] = true
+	}
+	return out
+}()
+
+func resolveKeyword(name string) string {
+	if keywords[name] {
+		return name + "_"
 	}
+	return name
 }
 
 func (fns CCFuncs) accessor(ctx shared.RuleContext) string {
@@ -157,9 +175,9 @@ type childEntity interface {
 
 func (fns CCFuncs) classBaseName(ent childEntity) string {
 	if m, ok := ent.Parent().(pgs.Message); ok {
-		return fmt.Sprintf("%s_%s", fns.classBaseName(m), ent.Name().String())
+		return resolveKeyword(fmt.Sprintf("%s_%s", fns.classBaseName(m), ent.Name().String()))
 	}
-	return ent.Name().String()
+	return resolveKeyword(ent.Name().String())
 }
 
 func (fns CCFuncs) className(ent childEntity) string {
@@ -167,6 +185,10 @@ func (fns CCFuncs) className(ent childEntity) string {
 }
 
 func (fns CCFuncs) packageName(msg pgs.Entity) string {
+	if msg.Package().ProtoName() == "" {
+		return ""
+	}
+
 	return "::" + strings.Join(msg.Package().ProtoName().Split(), "::")
 }
 
-- 
2.43.0


From b1df49f74d5a12a51ae1bfa81de758def86ea091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 34/70] fix: C++ lookup tables of nested messages of one name
 clashed

---
 templates/cc/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index d2a21a2..8a50d8d 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -252,7 +252,7 @@ func (fns CCFuncs) lookup(ctx shared.RuleContext, name string) string {
 
 	return fmt.Sprintf(
 		"_%s_%s_%s",
-		pgsgo.PGGUpperCamelCase(f.Message().Name()),
+		fns.classBaseName(f.Message()),
 		pgsgo.PGGUpperCamelCase(f.Name()),
 		name,
 	)
-- 
2.43.0


From b8b498a35a514c3bdeca395380b1fb1ba84deb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 35/70] fix: C++ oneof cases were misnamed for names other than
 lower snake case

---
 templates/cc/register.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 8a50d8d..43d411a 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -350,8 +350,27 @@ func cString(s string) string {
 func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fmt.Sprintf("%s::%sCase::k%s",
 		fns.className(f.Message()),
-		pgsgo.PGGUpperCamelCase(f.OneOf().Name()),
-		strings.ReplaceAll(pgsgo.PGGUpperCamelCase(f.Name()).String(), "_", "")))
+		underscoresToCamelCase(f.OneOf().Name()),
+		underscoresToCamelCase(f.Name())))
+}
+
+// underscoresToCamelCase is how protoc forms the names of enumerators.
+func underscoresToCamelCase(name pgs.Name) string {
+	var b strings.Builder
+	up := true
+	for _, c := range name.String() {
+		switch {
+		case c == '_':
+			up = true
+			continue
+		case up:
+			b.WriteString(strings.ToUpper(string(c)))
+		default:
+			b.WriteRune(c)
+		}
+		up = '0' <= c && c <= '9'
+	}
+	return b.String()
 }
 
 func (fns CCFuncs) inType(ctx shared.RuleContext, x interface{}) string {
-- 
2.43.0


From ebdd11cdc456efd6887294aba044b3ceffefed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:02 +0000
Subject: [PATCH 36/70] fix: durations too long for a time.Duration did not
 compile in Go

---
 templates/goshared/register.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 69ed95d..4b43785 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -281,6 +281,11 @@ func (fns goSharedFuncs) inKey(x interface{}) string {
 }
 
 func (fns goSharedFuncs) durLit(dur *durationpb.Duration) string {
+	// a time.Duration holds less than a Duration does
+	if d := dur.AsDuration(); d == math.MaxInt64 || d == math.MinInt64 {
+		return fmt.Sprintf("time.Duration(%d)", int64(d))
+	}
+
 	return fmt.Sprintf(
 		"time.Duration(%d * time.Second + %d * time.Nanosecond)",
 		dur.GetSeconds(), dur.GetNanos())
-- 
2.43.0


From a4c5b733d642e3becb9fb6c34508ca7aa02d064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 37/70] fix: C++ packages of one component were broken up at
 underscores, capitals and digits

---
 templates/cc/file.go     | 16 ++++++++--------
 templates/cc/register.go | 18 +++++++++++++++---
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index fcfc64a..e65de38 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -34,17 +34,17 @@ pgv::Validator<{{ class . }}> {{ staticVarName . }}(static_cast<bool(*)(const {{
 } // namespace validate
 } // namespace pgv
 
-{{ with .Package.ProtoName }}{{ range .Split }}
+{{ range namespaces . }}
 namespace {{ . }} {
-{{- end }}{{ end }}
+{{- end }}
 
 {{ range .AllMessages }}
 	{{- template "msg" . }}
 {{ end }}
 
-{{ with .Package.ProtoName }}{{ range .Split -}}
+{{ range namespaces . -}}
 } // namespace
-{{ end }}{{ end }}
+{{ end }}
 `
 
 const headerFileTpl = `// Code generated by protoc-gen-validate
@@ -63,9 +63,9 @@ const headerFileTpl = `// Code generated by protoc-gen-validate
 #include "validate/validate.h"
 #include "{{ output .File ".h" }}"
 
-{{ with .Package.ProtoName }}{{ range .Split }}
+{{ range namespaces . }}
 namespace {{ . }} {
-{{- end }}{{ end }}
+{{- end }}
 
 using std::string;
 
@@ -73,9 +73,9 @@ using std::string;
 	{{- template "decl" . }}
 {{ end }}
 
-{{ with .Package.ProtoName }}{{ range .Split -}}
+{{ range namespaces . -}}
 } // namespace
-{{ end }}{{ end }}
+{{ end }}
 
 #define X_{{ .Package.ProtoName.ScreamingSnakeCase }}_{{ .File.InputPath.BaseName | screaming_snake_case }}(X) \
 {{ range .AllMessages -}}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 43d411a..a6e7bab 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -39,6 +39,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"isBytes":       fns.isBytes,
 		"lit":           fns.lit,
 		"lookup":        fns.lookup,
+		"namespaces":    fns.namespaces,
 		"oneof":         fns.oneofTypeName,
 		"output":        fns.output,
 		"package":       fns.packageName,
@@ -100,6 +101,7 @@ func RegisterHeader(tpl *template.Template, params pgs.Parameters) {
 
 	tpl.Funcs(map[string]interface{}{
 		"class":                fns.className,
+		"namespaces":           fns.namespaces,
 		"output":               fns.output,
 		"screaming_snake_case": strcase.ToScreamingSnake,
 	})
@@ -185,11 +187,21 @@ func (fns CCFuncs) className(ent childEntity) string {
 }
 
 func (fns CCFuncs) packageName(msg pgs.Entity) string {
-	if msg.Package().ProtoName() == "" {
-		return ""
+	var out string
+	for _, n := range fns.namespaces(msg) {
+		out += "::" + n
 	}
 
-	return "::" + strings.Join(msg.Package().ProtoName().Split(), "::")
+	return out
+}
+
+func (fns CCFuncs) namespaces(ent pgs.Entity) []string {
+	name := ent.Package().ProtoName().String()
+	if name == "" {
+		return nil
+	}
+
+	return strings.Split(name, ".")
 }
 
 func (fns CCFuncs) quote(s interface {
-- 
2.43.0


From 117c7ca3827fcecc41c22f291492fb6270513e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 38/70] fix: imported enums of repeated and map fields, and of
 packages of unlucky names, did not compile in Go

---
 templates/go/file.go           |  4 +-
 templates/goshared/register.go | 72 ++++++++++++++++++++++++++++------
 2 files changed, 63 insertions(+), 13 deletions(-)

diff --git a/templates/go/file.go b/templates/go/file.go
index 10924be..c680ccd 100644
--- a/templates/go/file.go
+++ b/templates/go/file.go
@@ -20,7 +20,7 @@ import (
 
 	"google.golang.org/protobuf/types/known/anypb"
 
-	{{ range $path, $pkg := enumPackages (externalEnums .) }}
+	{{ range $path, $pkg := enumPackages . }}
 		{{ $pkg }} "{{ $path }}"
 	{{ end }}
 )
@@ -41,7 +41,7 @@ var (
 	_ = anypb.Any{}
 
 	{{ range (externalEnums .) }}
-		_ = {{ pkg . }}.{{ name . }}(0)
+		_ = {{ enumTyp $ . }}(0)
 	{{ end }}
 )
 
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 4b43785..21ff184 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -45,8 +45,9 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"tsGt":          fns.tsGt,
 		"tsLit":         fns.tsLit,
 		"tsStr":         fns.tsStr,
-		"typ":           fns.Type,
+		"typ":           fns.fieldTyp,
 		"unwrap":        fns.unwrap,
+		"enumTyp":       fns.enumTyp,
 		"externalEnums": fns.externalEnums,
 		"enumPackages":  fns.enumPackages,
 	})
@@ -246,12 +247,44 @@ func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
 
 // enumType is the type of an enum field, or of its elements.
 func (fns goSharedFuncs) enumType(f pgs.Field) string {
-	typ := fns.Type(f)
-	if f.Type().Element() != nil {
-		typ = typ.Element()
+	return fns.enumTyp(f.File(), fieldEnum(f)).String()
+}
+
+// fieldTyp is the type of a field, as it is to be written in its file.
+func (fns goSharedFuncs) fieldTyp(f pgs.Field) pgsgo.TypeName {
+	typ, en := fns.Type(f), fieldEnum(f)
+	if en == nil {
+		return typ
+	}
+
+	old := fns.Name(en)
+	if fns.ImportPath(en) != fns.ImportPath(f) {
+		old = fns.PackageName(en) + "." + old
+	}
+
+	return pgsgo.TypeName(strings.TrimSuffix(typ.String(), old.String())) + fns.enumTyp(f.File(), en)
+}
+
+// enumTyp is the type of an enum, as it is to be written in a file.
+func (fns goSharedFuncs) enumTyp(file pgs.File, en pgs.Enum) pgsgo.TypeName {
+	name := pgsgo.TypeName(fns.Name(en))
+	if fns.ImportPath(en) == fns.ImportPath(file) {
+		return name
 	}
 
-	return typ.Value().String()
+	return pgsgo.TypeName(fns.enumPackages(file)[fns.ImportPath(en)]) + "." + name
+}
+
+// fieldEnum is the enum that a field, or its elements, are of, or nil.
+func fieldEnum(f pgs.Field) pgs.Enum {
+	switch el := f.Type().Element(); {
+	case f.Type().IsEnum():
+		return f.Type().Enum()
+	case el != nil && el.IsEnum():
+		return el.Enum()
+	default:
+		return nil
+	}
 }
 
 // inKeys returns the literals of a list, without repetitions: Go takes
@@ -340,23 +373,40 @@ func (fns goSharedFuncs) msgTyp(message pgs.Message) pgsgo.TypeName {
 
 func (fns goSharedFuncs) externalEnums(file pgs.File) []pgs.Enum {
 	var out []pgs.Enum
+	seen := map[string]bool{}
 
 	for _, msg := range file.AllMessages() {
 		for _, fld := range msg.Fields() {
-			if en := fld.Type().Enum(); fld.Type().IsEnum() && en.Package().ProtoName() != fld.Package().ProtoName() && fns.PackageName(en) != fns.PackageName(fld) {
-				out = append(out, en)
+			en := fieldEnum(fld)
+			if en == nil || fns.ImportPath(en) == fns.ImportPath(file) || seen[en.FullyQualifiedName()] {
+				continue
 			}
+			seen[en.FullyQualifiedName()] = true
+			out = append(out, en)
 		}
 	}
 
 	return out
 }
 
-func (fns goSharedFuncs) enumPackages(enums []pgs.Enum) map[pgs.FilePath]pgs.Name {
-	out := make(map[pgs.FilePath]pgs.Name, len(enums))
+// enumPackages maps what a file has to import for its enums to the names it is
+// imported as, which are none the file uses for anything else.
+func (fns goSharedFuncs) enumPackages(file pgs.File) map[pgs.FilePath]pgs.Name {
+	out := map[pgs.FilePath]pgs.Name{}
+	used := map[pgs.Name]bool{}
+
+	for _, en := range fns.externalEnums(file) {
+		path := fns.ImportPath(en)
+		if _, ok := out[path]; ok {
+			continue
+		}
 
-	for _, en := range enums {
-		out[fns.ImportPath(en)] = fns.PackageName(en)
+		name := fns.PackageName(en) + "_pb"
+		for used[name] {
+			name += "_"
+		}
+		used[name] = true
+		out[path] = name
 	}
 
 	return out
-- 
2.43.0


From 2b5af0029950ff73be6a657db3563ef805035404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 39/70] fix: uuid patterns did not compile for file names with
 dots and clashed for some others

---
 templates/go/file.go           |  2 +-
 templates/goshared/known.go    |  2 +-
 templates/goshared/register.go | 18 ++++++++++++++----
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/templates/go/file.go b/templates/go/file.go
index c680ccd..f4026d6 100644
--- a/templates/go/file.go
+++ b/templates/go/file.go
@@ -47,7 +47,7 @@ var (
 
 {{- if fileneeds . "uuid" }}
 // define the regex for a UUID once up-front
-var _{{ snakeCase .File.InputPath.BaseName }}_uuidPattern = regexp.MustCompile("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$")
+var _{{ ident .File.InputPath.BaseName }}_uuidPattern = regexp.MustCompile("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$")
 {{ end }}
 
 {{ range .AllMessages }}
diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index 21c95f5..3e4d91c 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -65,7 +65,7 @@ const emailTpl = `
 
 const uuidTpl = `
 	func (m {{ (msgTyp .).Pointer }}) _validateUuid(uuid string) error {
-		if matched := _{{ snakeCase .File.InputPath.BaseName }}_uuidPattern.MatchString(uuid); !matched {
+		if matched := _{{ ident .File.InputPath.BaseName }}_uuidPattern.MatchString(uuid); !matched {
 			return errors.New("invalid uuid format")
 		}
 
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 21ff184..ed552f2 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -6,8 +6,8 @@ import (
 	"reflect"
 	"strings"
 	"text/template"
+	"unicode"
 
-	"github.com/iancoleman/strcase"
 	"google.golang.org/protobuf/types/known/durationpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -22,7 +22,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	tpl.Funcs(map[string]interface{}{
 		"accessor":      fns.accessor,
 		"byteStr":       fns.byteStr,
-		"snakeCase":	 fns.snakeCase,
+		"ident":         fns.ident,
 		"cmt":           pgs.C80,
 		"durGt":         fns.durGt,
 		"durLit":        fns.durLit,
@@ -412,6 +412,16 @@ func (fns goSharedFuncs) enumPackages(file pgs.File) map[pgs.FilePath]pgs.Name {
 	return out
 }
 
-func (fns goSharedFuncs) snakeCase(name string) string {
-	return strcase.ToSnake(name)
+// ident makes the name of a file part of an identifier, one of its own.
+func (fns goSharedFuncs) ident(name string) string {
+	var b strings.Builder
+	for _, r := range name {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			b.WriteRune(r)
+		} else {
+			fmt.Fprintf(&b, "_%x_", r)
+		}
+	}
+
+	return b.String()
 }
-- 
2.43.0


From 438010980c8c5a1092d6ff1f4c3927e67691ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 40/70] fix: Java: escape string constants as Java string
 literals

---
 templates/java/any.go      |  4 ++--
 templates/java/register.go | 30 +++++++++++++++++++++++-------
 templates/java/string.go   | 14 +++++++-------
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/templates/java/any.go b/templates/java/any.go
index e7ec579..ec7f6e7 100644
--- a/templates/java/any.go
+++ b/templates/java/any.go
@@ -4,14 +4,14 @@ const anyConstTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 {{- if $r.In }}
 		private final String[] {{ constantName . "In" }} = new String[]{
 			{{- range $r.In }}
-			"{{ . }}",
+			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final String[] {{ constantName . "NotIn" }} = new String[]{
 			{{- range $r.NotIn }}
-			"{{ . }}",
+			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}`
diff --git a/templates/java/register.go b/templates/java/register.go
index 94fd776..c5be1b7 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 	"text/template"
 	"unicode"
+	"unicode/utf16"
 
 	"github.com/envoyproxy/protoc-gen-validate/templates/shared"
 	"github.com/iancoleman/strcase"
@@ -416,14 +417,29 @@ func (fns javaFuncs) javaTypeLiteralSuffixForPrototype(t pgs.ProtoType) string {
 	}
 }
 
+// javaStringEscape renders s as a Java string literal.
 func (fns javaFuncs) javaStringEscape(s string) string {
-	s = fmt.Sprintf("%q", s)
-	s = s[1 : len(s)-1]
-	s = strings.Replace(s, `\u00`, `\x`, -1)
-	s = strings.Replace(s, `\x`, `\\x`, -1)
-	// s = strings.Replace(s, `\`, `\\`, -1)
-	s = strings.Replace(s, `"`, `\"`, -1)
-	return `"` + s + `"`
+	var sb strings.Builder
+	sb.WriteByte('"')
+	for _, c := range s {
+		switch {
+		case c == '"' || c == '\\':
+			sb.WriteByte('\\')
+			sb.WriteRune(c)
+		case c < ' ':
+			// unicode escapes are replaced before a literal is read
+			fmt.Fprintf(&sb, "\\%03o", c)
+		case c < 0x7f:
+			sb.WriteRune(c)
+		case c > 0xffff:
+			hi, lo := utf16.EncodeRune(c)
+			fmt.Fprintf(&sb, "\\u%04x\\u%04x", hi, lo)
+		default:
+			fmt.Fprintf(&sb, "\\u%04x", c)
+		}
+	}
+	sb.WriteByte('"')
+	return sb.String()
 }
 
 func (fns javaFuncs) camelCase(name pgs.Name) string {
diff --git a/templates/java/string.go b/templates/java/string.go
index 2a11215..9dd6699 100644
--- a/templates/java/string.go
+++ b/templates/java/string.go
@@ -4,14 +4,14 @@ const stringConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.In }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "In" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.In -}}
-				"{{- sprintf "%v" . -}}",
+				{{- javaStringEscape . -}},
 			{{- end -}}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "NotIn" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.NotIn -}}
-				"{{- sprintf "%v" . -}}",
+				{{- javaStringEscape . -}},
 			{{- end -}}
 		};
 {{- end -}}
@@ -24,7 +24,7 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.Const }}
-			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetConst }}");
+			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetConst }});
 {{- end -}}
 {{- if $r.In }}
 			io.envoyproxy.pgv.CollectiveValidation.in("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "In" }});
@@ -54,16 +54,16 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.StringValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
 {{- end -}}
 {{- if $r.Prefix }}
-			io.envoyproxy.pgv.StringValidation.prefix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetPrefix }}");
+			io.envoyproxy.pgv.StringValidation.prefix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetPrefix }});
 {{- end -}}
 {{- if $r.Contains }}
-			io.envoyproxy.pgv.StringValidation.contains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetContains }}");
+			io.envoyproxy.pgv.StringValidation.contains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetContains }});
 {{- end -}}
 {{- if $r.NotContains }}
-			io.envoyproxy.pgv.StringValidation.notContains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetNotContains }}");
+			io.envoyproxy.pgv.StringValidation.notContains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetNotContains }});
 {{- end -}}
 {{- if $r.Suffix }}
-			io.envoyproxy.pgv.StringValidation.suffix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetSuffix }}");
+			io.envoyproxy.pgv.StringValidation.suffix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetSuffix }});
 {{- end -}}
 {{- if $r.GetEmail }}
 			io.envoyproxy.pgv.StringValidation.email("{{ $f.FullyQualifiedName }}", {{ accessor . }});
-- 
2.43.0


From 0f93190148ed2aec14f111be2630fd1ee6833a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 41/70] fix: Java: unsigned numbers compare unsigned, and every
 constant is a literal

---
 templates/java/num.go      | 24 +++++++++++-----------
 templates/java/register.go | 42 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/templates/java/num.go b/templates/java/num.go
index e0a25e9..160d7aa 100644
--- a/templates/java/num.go
+++ b/templates/java/num.go
@@ -2,31 +2,31 @@ package java
 
 const numConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.Const }}
-		private final {{ javaTypeFor .}} {{ constantName . "Const" }} = {{ $r.GetConst }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Const" }} = {{ javaNumLit . $r.GetConst }};
 {{- end -}}
 {{- if $r.Lt }}
-		private final {{ javaTypeFor .}} {{ constantName . "Lt" }} = {{ $r.GetLt }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Lt" }} = {{ javaNumLit . $r.GetLt }};
 {{- end -}}
 {{- if $r.Lte }}
-		private final {{ javaTypeFor .}} {{ constantName . "Lte" }} = {{ $r.GetLte }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Lte" }} = {{ javaNumLit . $r.GetLte }};
 {{- end -}}
 {{- if $r.Gt }}
-		private final {{ javaTypeFor .}} {{ constantName . "Gt" }} = {{ $r.GetGt }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Gt" }} = {{ javaNumLit . $r.GetGt }};
 {{- end -}}
 {{- if $r.Gte }}
-		private final {{ javaTypeFor .}} {{ constantName . "Gte" }} = {{ $r.GetGte }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Gte" }} = {{ javaNumLit . $r.GetGte }};
 {{- end -}}
 {{- if $r.In }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "In" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.In -}}
-				{{- sprintf "%v" . -}}{{ javaTypeLiteralSuffixFor $ }},
+				{{ javaNumLit $ . }},
 			{{- end -}}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "NotIn" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.NotIn -}}
-				{{- sprintf "%v" . -}}{{ javaTypeLiteralSuffixFor $ }},
+				{{ javaNumLit $ . }},
 			{{- end -}}
 		};
 {{- end -}}`
@@ -39,19 +39,19 @@ const numTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if and (or $r.Lt $r.Lte) (or $r.Gt $r.Gte)}}
-			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, {{ javaComparatorFor . }});
 {{- else -}}
 {{- if $r.Lt }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, {{ javaComparatorFor . }});
 {{- end -}}
 {{- if $r.Lte }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, {{ javaComparatorFor . }});
 {{- end -}}
 {{- if $r.Gt }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, {{ javaComparatorFor . }});
 {{- end -}}
 {{- if $r.Gte }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, {{ javaComparatorFor . }});
 {{- end -}}
 {{- end -}}
 {{- if $r.In }}
diff --git a/templates/java/register.go b/templates/java/register.go
index c5be1b7..36cf67d 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -3,7 +3,9 @@ package java
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"os"
+	"reflect"
 	"strings"
 	"text/template"
 	"unicode"
@@ -44,6 +46,8 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"javaStringEscape":         fns.javaStringEscape,
 		"javaTypeFor":              fns.javaTypeFor,
 		"javaTypeLiteralSuffixFor": fns.javaTypeLiteralSuffixFor,
+		"javaNumLit":               fns.javaNumLit,
+		"javaComparatorFor":        fns.javaComparatorFor,
 		"hasAccessor":              fns.hasAccessor,
 		"oneof":                    fns.oneofTypeName,
 		"sprintf":                  fmt.Sprintf,
@@ -417,6 +421,44 @@ func (fns javaFuncs) javaTypeLiteralSuffixForPrototype(t pgs.ProtoType) string {
 	}
 }
 
+// javaNumLit renders the number x as a literal of the field's Java type.
+// Java's integers are signed: the larger unsigned ones wrap around.
+func (fns javaFuncs) javaNumLit(ctx shared.RuleContext, x interface{}) string {
+	rv := reflect.ValueOf(x)
+	for rv.Kind() == reflect.Ptr {
+		rv = rv.Elem()
+	}
+	switch rv.Kind() {
+	case reflect.Uint32:
+		return fmt.Sprintf("%d", int32(rv.Uint()))
+	case reflect.Uint64:
+		return fmt.Sprintf("%dL", int64(rv.Uint()))
+	case reflect.Float32, reflect.Float64:
+		if v := rv.Float(); math.IsNaN(v) || math.IsInf(v, 0) {
+			name := "NaN"
+			if v > 0 {
+				name = "POSITIVE_INFINITY"
+			} else if v < 0 {
+				name = "NEGATIVE_INFINITY"
+			}
+			return fns.javaTypeFor(ctx) + "." + name
+		}
+	}
+	return fmt.Sprintf("%v%s", rv.Interface(), fns.javaTypeLiteralSuffixFor(ctx))
+}
+
+// javaComparatorFor names the comparator of the field's numbers.
+func (fns javaFuncs) javaComparatorFor(ctx shared.RuleContext) string {
+	switch ctx.Typ {
+	case "uint32", "fixed32":
+		return "Integer::compareUnsigned"
+	case "uint64", "fixed64":
+		return "Long::compareUnsigned"
+	default:
+		return "java.util.Comparator.naturalOrder()"
+	}
+}
+
 // javaStringEscape renders s as a Java string literal.
 func (fns javaFuncs) javaStringEscape(s string) string {
 	var sb strings.Builder
-- 
2.43.0


From 610eebefd54fe4278627c1cd6aae1c6503ac14b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 42/70] fix: Java: a maximum of no items or pairs is a rule

---
 templates/java/map.go      | 2 +-
 templates/java/repeated.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/map.go b/templates/java/map.go
index 632d7eb..7d960d8 100644
--- a/templates/java/map.go
+++ b/templates/java/map.go
@@ -14,7 +14,7 @@ const mapTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetMinPairs }}
 			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinPairs }});
 {{- end -}}
-{{- if $r.GetMaxPairs }}
+{{- if $r.MaxPairs }}
 			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxPairs }});
 {{- end -}}
 {{- if $r.GetNoSparse }}
diff --git a/templates/java/repeated.go b/templates/java/repeated.go
index 776b407..0ceb9b2 100644
--- a/templates/java/repeated.go
+++ b/templates/java/repeated.go
@@ -9,7 +9,7 @@ const repeatedTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetMinItems }}
 			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinItems }});
 {{- end -}}
-{{- if $r.GetMaxItems }}
+{{- if $r.MaxItems }}
 			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxItems }});
 {{- end -}}
 {{- if $r.GetUnique }}
-- 
2.43.0


From 45f43a9bbbea5d52e4cf3d160c9c36653bb25318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 43/70] fix: Java: sets of wrapped bools, strings and bytes in
 lists and maps

---
 templates/java/register.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/templates/java/register.go b/templates/java/register.go
index 36cf67d..e08a495 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -339,6 +339,12 @@ func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
 				return "Double"
 			case pgs.FloatValueWKT:
 				return "Float"
+			case pgs.BoolValueWKT:
+				return "Boolean"
+			case pgs.StringValueWKT:
+				return "String"
+			case pgs.BytesValueWKT:
+				return "com.google.protobuf.ByteString"
 			}
 		}
 	}
-- 
2.43.0


From 66eef00c6314b8b51fcd6b1fc7501ba68af8cd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:56 +0000
Subject: [PATCH 44/70] fix: Java: enum values of maps

---
 templates/java/register.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templates/java/register.go b/templates/java/register.go
index e08a495..e90473c 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -318,6 +318,9 @@ func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
 		case "key":
 			return fns.javaTypeForProtoType(t.Key().ProtoType())
 		case "value":
+			if t.Element().IsEnum() {
+				return fns.qualifiedName(t.Element().Enum())
+			}
 			return fns.javaTypeForProtoType(t.Element().ProtoType())
 		}
 	}
-- 
2.43.0


From 0025d41347aeb408fbcd5e4fba62fc87212a6734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 45/70] fix: Java: seconds of durations and timestamps are
 longs

---
 templates/java/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index e90473c..feeaed7 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -510,13 +510,13 @@ func (fns javaFuncs) byteArrayLit(bytes []uint8) string {
 
 func (fns javaFuncs) durLit(dur *durationpb.Duration) string {
 	return fmt.Sprintf(
-		"io.envoyproxy.pgv.TimestampValidation.toDuration(%d,%d)",
+		"io.envoyproxy.pgv.TimestampValidation.toDuration(%dL,%d)",
 		dur.GetSeconds(), dur.GetNanos())
 }
 
 func (fns javaFuncs) tsLit(ts *timestamppb.Timestamp) string {
 	return fmt.Sprintf(
-		"io.envoyproxy.pgv.TimestampValidation.toTimestamp(%d,%d)",
+		"io.envoyproxy.pgv.TimestampValidation.toTimestamp(%dL,%d)",
 		ts.GetSeconds(), ts.GetNanos())
 }
 
-- 
2.43.0


From fb63b7f59cad9bdf6e56dd974067534d9ff3c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 46/70] fix: Java: an ignored message gets no validator in
 multiple-files mode either

---
 templates/java/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index 567831c..f2b6d57 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -26,9 +26,11 @@ public class {{ classNameFile . }}Validator {
 * Validates {@code {{ simpleName . }}} protobuf objects.
 */
 @SuppressWarnings("all")
-public class {{ classNameMessage .}}Validator implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{
+public class {{ classNameMessage .}}Validator {{ if not (ignored .) }}implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{{ end }}{
 	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
+		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
+		{{- end }}
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
@@ -36,7 +38,9 @@ public class {{ classNameMessage .}}Validator implements io.envoyproxy.pgv.Valid
 		{{- end }}
 		return null;
 	}
+	{{- if not (ignored .) -}}
 	{{- template "msgInner" . -}}
+	{{- end -}}
 	{{ range .AllMessages -}}
 	{{- template "msg" . -}}
 	{{- end }}
-- 
2.43.0


From f6dfb393bf551c5df420d35b199da047ee6eeb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 47/70] fix: Java: within works on every pair of timestamps

---
 .../main/java/io/envoyproxy/pgv/TimestampValidation.java    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
index ff51948..cb6da03 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
@@ -13,11 +13,15 @@ public final class TimestampValidation {
 
     public static void within(String field, Timestamp value, Duration duration, Timestamp when) throws ValidationException {
         Duration between = Timestamps.between(when, value);
-        if (Long.compare(Math.abs(Durations.toNanos(between)), Math.abs(Durations.toNanos(duration))) == 1) {
+        if (Durations.compare(abs(between), abs(duration)) > 0) {
             throw new ValidationException(field, value, "value must be within " + Durations.toString(duration) + " of " + Timestamps.toString(when));
         }
     }
 
+    private static Duration abs(Duration duration) {
+        return toDuration(Math.abs(duration.getSeconds()), Math.abs(duration.getNanos()));
+    }
+
     /**
      * Converts {@code seconds} and {@code nanos} to a protobuf {@code Timestamp}.
      */
-- 
2.43.0


From 291fa5044977ef1f5e07a1fece388fb51675f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 48/70] fix: Java: the two floating point zeros are equal

---
 templates/java/num.go      | 16 ++++++++--------
 templates/java/register.go | 17 ++++++++++++++++-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/templates/java/num.go b/templates/java/num.go
index 160d7aa..48d62e0 100644
--- a/templates/java/num.go
+++ b/templates/java/num.go
@@ -36,29 +36,29 @@ const numTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( {{ accessor . }} != 0 ) {
 {{- end -}}
 {{- if $r.Const }}
-			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
+			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ javaNumber . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if and (or $r.Lt $r.Lte) (or $r.Gt $r.Gte)}}
-			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, {{ javaComparatorFor . }});
+			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ javaNumber . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, {{ javaComparatorFor . }});
 {{- else -}}
 {{- if $r.Lt }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, {{ javaComparatorFor . }});
+			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ javaNumber . }}, {{ constantName . "Lt" }}, {{ javaComparatorFor . }});
 {{- end -}}
 {{- if $r.Lte }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, {{ javaComparatorFor . }});
+			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ javaNumber . }}, {{ constantName . "Lte" }}, {{ javaComparatorFor . }});
 {{- end -}}
 {{- if $r.Gt }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, {{ javaComparatorFor . }});
+			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ javaNumber . }}, {{ constantName . "Gt" }}, {{ javaComparatorFor . }});
 {{- end -}}
 {{- if $r.Gte }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, {{ javaComparatorFor . }});
+			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ javaNumber . }}, {{ constantName . "Gte" }}, {{ javaComparatorFor . }});
 {{- end -}}
 {{- end -}}
 {{- if $r.In }}
-			io.envoyproxy.pgv.CollectiveValidation.in("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "In" }});
+			io.envoyproxy.pgv.CollectiveValidation.in("{{ $f.FullyQualifiedName }}", {{ javaNumber . }}, {{ constantName . "In" }});
 {{- end -}}
 {{- if $r.NotIn }}
-			io.envoyproxy.pgv.CollectiveValidation.notIn("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "NotIn" }});
+			io.envoyproxy.pgv.CollectiveValidation.notIn("{{ $f.FullyQualifiedName }}", {{ javaNumber . }}, {{ constantName . "NotIn" }});
 {{- end -}}
 {{- if $r.GetIgnoreEmpty }}
 			}
diff --git a/templates/java/register.go b/templates/java/register.go
index feeaed7..18b509d 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -47,6 +47,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"javaTypeFor":              fns.javaTypeFor,
 		"javaTypeLiteralSuffixFor": fns.javaTypeLiteralSuffixFor,
 		"javaNumLit":               fns.javaNumLit,
+		"javaNumber":               fns.javaNumber,
 		"javaComparatorFor":        fns.javaComparatorFor,
 		"hasAccessor":              fns.hasAccessor,
 		"oneof":                    fns.oneofTypeName,
@@ -443,7 +444,10 @@ func (fns javaFuncs) javaNumLit(ctx shared.RuleContext, x interface{}) string {
 	case reflect.Uint64:
 		return fmt.Sprintf("%dL", int64(rv.Uint()))
 	case reflect.Float32, reflect.Float64:
-		if v := rv.Float(); math.IsNaN(v) || math.IsInf(v, 0) {
+		if v := rv.Float(); v == 0 {
+			// not the negative one, see javaNumber
+			return "0" + fns.javaTypeLiteralSuffixFor(ctx)
+		} else if math.IsNaN(v) || math.IsInf(v, 0) {
 			name := "NaN"
 			if v > 0 {
 				name = "POSITIVE_INFINITY"
@@ -456,6 +460,17 @@ func (fns javaFuncs) javaNumLit(ctx shared.RuleContext, x interface{}) string {
 	return fmt.Sprintf("%v%s", rv.Interface(), fns.javaTypeLiteralSuffixFor(ctx))
 }
 
+// javaNumber is the value of the field. Java's boxed numbers tell the two
+// floating point zeros apart, the sum with the positive one does not.
+func (fns javaFuncs) javaNumber(ctx shared.RuleContext) string {
+	switch ctx.Typ {
+	case "float", "double":
+		return fns.accessor(ctx) + " + 0" + fns.javaTypeLiteralSuffixFor(ctx)
+	default:
+		return fns.accessor(ctx)
+	}
+}
+
 // javaComparatorFor names the comparator of the field's numbers.
 func (fns javaFuncs) javaComparatorFor(ctx shared.RuleContext) string {
 	switch ctx.Typ {
-- 
2.43.0


From 4406c447329c2941262e18316584c6399edbec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 49/70] fix: Java: a missing required wrapper is named

---
 templates/java/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/wrapper.go b/templates/java/wrapper.go
index 3e3984e..80e1adc 100644
--- a/templates/java/wrapper.go
+++ b/templates/java/wrapper.go
@@ -8,5 +8,5 @@ const wrapperTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				{{- render (unwrap .) }}
 			}
 			{{ if .MessageRules.GetRequired }} else {
-				throw new io.envoyproxy.pgv.ValidationException("{{ $f }}", "null", "is required");
+				throw new io.envoyproxy.pgv.ValidationException("{{ $f.FullyQualifiedName }}", "null", "is required");
 			} {{ end }}`
-- 
2.43.0


From 60b10abca9334efd50a252ceefbf3c8957f4171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 50/70] fix: Java: required applies to skipped messages too

---
 templates/java/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/message.go b/templates/java/message.go
index a9b7a62..b176101 100644
--- a/templates/java/message.go
+++ b/templates/java/message.go
@@ -1,10 +1,10 @@
 package java
 
 const messageTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+	{{- template "required" . }}
 	{{- if .MessageRules.GetSkip }}
 			// skipping validation for {{ $f.Name }}
 	{{- else -}}
-		{{- template "required" . }}
 		{{- if (isOfMessageType $f) }}
 			// Validate {{ $f.Name }}
 			if ({{ hasAccessor . }}) index.validatorFor({{ accessor . }}).assertValid({{ accessor . }});
-- 
2.43.0


From 1e498fecd69afce1954af46706d4d99721afd0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 51/70] fix: Java: the two floating point zeros are no unique
 items

---
 .../io/envoyproxy/pgv/RepeatedValidation.java     | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/RepeatedValidation.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/RepeatedValidation.java
index 745229e..54ad98a 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/RepeatedValidation.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/RepeatedValidation.java
@@ -24,15 +24,26 @@ public final class RepeatedValidation {
     }
 
     public static <T> void unique(String field, List<T> values) throws ValidationException {
-        Set<T> seen = new HashSet<>();
+        Set<Object> seen = new HashSet<>();
         for (T value : values) {
             // Abort at the first sign of a duplicate
-            if (!seen.add(value)) {
+            if (!seen.add(sameZero(value))) {
                 throw new ValidationException(field, values, "must have all unique values");
             }
         }
     }
 
+    // The two floating point zeros are equal, boxes of them are not.
+    private static Object sameZero(Object value) {
+        if (value instanceof Double && (Double) value == 0) {
+            return 0d;
+        }
+        if (value instanceof Float && (Float) value == 0) {
+            return 0f;
+        }
+        return value;
+    }
+
     @FunctionalInterface
     public interface ValidationConsumer<T> {
         void accept(T value) throws ValidationException;
-- 
2.43.0


From 2c5fe6de6462b65d91c0d75cbefa5b7c48b8b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:24 +0000
Subject: [PATCH 52/70] fix: ReflectiveValidatorIndex threw on classes of the
 bootstrap class loader

---
 .../main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
index 583ff96..216e5f2 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
@@ -46,7 +46,7 @@ public final class ReflectiveValidatorIndex implements ValidatorIndex {
         }
 
         String validatorClassName = enclosingClass.getName() + "Validator";
-        Class validatorClass = clazz.getClassLoader().loadClass(validatorClassName);
+        Class validatorClass = Class.forName(validatorClassName, true, clazz.getClassLoader());
         ValidatorImpl impl = (ValidatorImpl) validatorClass.getDeclaredMethod("validatorFor", Class.class).invoke(null, clazz);
         if (impl == null) {
             throw new ClassNotFoundException("no validator for " + clazz.getName() + " in " + validatorClassName);
-- 
2.43.0


From d705b985985062c41494e90eaf3eb1fb82e5f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 53/70] fix: Python: constants were put into the code unquoted

---
 python/protoc_gen_validate/validator.py | 72 ++++++++++++++-----------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index bdca00b..2f4a845 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -132,10 +132,20 @@ def _has_field(message_pb, property_name):
         return property_name in all_fields
 
 
+def _lit(value):
+    """The literal of a constant of a rule."""
+    return ascii(value if isinstance(value, (str, bytes)) else list(value))
+
+
+def _txt(value):
+    """A constant of a rule, as part of a message in double quotes."""
+    return ascii(str(value))[1:-1].replace('"', '\\"')
+
+
 def const_template(option_value, name):
     const_tmpl = """{%- if str(o.string) and o.string.HasField('const') -%}
-    if {{ name }} != \"{{ o.string['const'] }}\":
-        raise ValidationFailed(\"{{ name }} not equal to {{ o.string['const'] }}\")
+    if {{ name }} != {{ _lit(o.string['const']) }}:
+        raise ValidationFailed(\"{{ name }} not equal to {{ _txt(o.string['const']) }}\")
     {%- elif str(o.bool) and o.bool['const'] != "" -%}
     if {{ name }} != {{ o.bool['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bool['const'] }}\")
@@ -144,29 +154,29 @@ def const_template(option_value, name):
         raise ValidationFailed(\"{{ name }} not equal to {{ o.enum['const'] }}\")
     {%- elif str(o.bytes) and o.bytes.HasField('const') -%}
         {% if sys.version_info[0] >= 3 %}
-    if {{ name }} != {{ o.bytes['const'] }}:
-        raise ValidationFailed(\"{{ name }} not equal to {{ o.bytes['const'] }}\")
+    if {{ name }} != {{ _lit(o.bytes['const']) }}:
+        raise ValidationFailed(\"{{ name }} not equal to {{ _txt(o.bytes['const']) }}\")
         {% else %}
     if {{ name }} != b\"{{ o.bytes['const'].encode('string_escape') }}\":
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bytes['const'].encode('string_escape') }}\")
         {% endif %}
     {%- endif -%}
     """
-    return Template(const_tmpl).render(sys=sys, o=option_value, name=name, str=str)
+    return Template(const_tmpl).render(sys=sys, o=option_value, name=name, str=str, _lit=_lit, _txt=_txt)
 
 
 def in_template(value, name):
     in_tmpl = """
     {%- if value['in'] %}
-    if {{ name }} not in {{ value['in'] }}:
-        raise ValidationFailed(\"{{ name }} not in {{ value['in'] }}\")
+    if {{ name }} not in {{ _lit(value['in']) }}:
+        raise ValidationFailed(\"{{ name }} not in {{ _txt(value['in']) }}\")
     {%- endif -%}
     {%- if value['not_in'] %}
-    if {{ name }} in {{ value['not_in'] }}:
-        raise ValidationFailed(\"{{ name }} in {{ value['not_in'] }}\")
+    if {{ name }} in {{ _lit(value['not_in']) }}:
+        raise ValidationFailed(\"{{ name }} in {{ _txt(value['not_in']) }}\")
     {%- endif -%}
     """
-    return Template(in_tmpl).render(value=value, name=name)
+    return Template(in_tmpl).render(value=value, name=name, _lit=_lit, _txt=_txt)
 
 
 def string_template(option_value, name):
@@ -213,24 +223,24 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} length is greater than {{ s['max_bytes'] }}\")
     {%- endif -%}
     {%- if s['pattern'] %}
-    if re.search(r\'{{ s['pattern'] }}\', {{ name }}) is None:
-        raise ValidationFailed(\"{{ name }} pattern does not match {{ s['pattern'] }}\")
+    if re.search({{ _lit(s['pattern']) }}, {{ name }}) is None:
+        raise ValidationFailed(\"{{ name }} pattern does not match {{ _txt(s['pattern']) }}\")
     {%- endif -%}
     {%- if s['prefix'] %}
-    if not {{ name }}.startswith(\"{{ s['prefix'] }}\"):
-        raise ValidationFailed(\"{{ name }} does not start with prefix {{ s['prefix'] }}\")
+    if not {{ name }}.startswith({{ _lit(s['prefix']) }}):
+        raise ValidationFailed(\"{{ name }} does not start with prefix {{ _txt(s['prefix']) }}\")
     {%- endif -%}
     {%- if s['suffix'] %}
-    if not {{ name }}.endswith(\"{{ s['suffix'] }}\"):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ s['suffix'] }}\")
+    if not {{ name }}.endswith({{ _lit(s['suffix']) }}):
+        raise ValidationFailed(\"{{ name }} does not end with suffix {{ _txt(s['suffix']) }}\")
     {%- endif -%}
     {%- if s['contains'] %}
-    if not \"{{ s['contains'] }}\" in {{ name }}:
-        raise ValidationFailed(\"{{ name }} does not contain {{ s['contains'] }}\")
+    if not {{ _lit(s['contains']) }} in {{ name }}:
+        raise ValidationFailed(\"{{ name }} does not contain {{ _txt(s['contains']) }}\")
     {%- endif -%}
     {%- if s['not_contains'] %}
-    if \"{{ s['not_contains'] }}\" in {{ name }}:
-        raise ValidationFailed(\"{{ name }} contains {{ s['not_contains'] }}\")
+    if {{ _lit(s['not_contains']) }} in {{ name }}:
+        raise ValidationFailed(\"{{ name }} contains {{ _txt(s['not_contains']) }}\")
     {%- endif -%}
     {%- if s['email'] %}
     if not _validateEmail({{ name }}):
@@ -283,7 +293,8 @@ def string_template(option_value, name):
     {%- endif -%}
     {% endfilter %}
     """
-    return Template(str_templ).render(o=option_value, name=name, const_template=const_template, in_template=in_template)
+    return Template(str_templ).render(o=option_value, name=name, const_template=const_template, in_template=in_template,
+                                      _lit=_lit, _txt=_txt)
 
 
 def required_template(value, name):
@@ -681,8 +692,8 @@ def any_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        if {{ name }}.type_url not in {{ o['in'] }}:
-            raise ValidationFailed(\"{{ name }} not in {{ o['in'] }}\")
+        if {{ name }}.type_url not in {{ _lit(o['in']) }}:
+            raise ValidationFailed(\"{{ name }} not in {{ _txt(o['in']) }}\")
     {%- endif %}
     {%- if o['not_in'] %}
     {% if repeated %}
@@ -690,12 +701,12 @@ def any_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        if {{ name }}.type_url in {{ o['not_in'] }}:
-            raise ValidationFailed(\"{{ name }} in {{ o['not_in'] }}\")
+        if {{ name }}.type_url in {{ _lit(o['not_in']) }}:
+            raise ValidationFailed(\"{{ name }} in {{ _txt(o['not_in']) }}\")
     {%- endif %}
     """
     return Template(any_tmpl).render(
-        o=option_value.any, name=name, required_template=required_template, repeated=repeated)
+        o=option_value.any, name=name, required_template=required_template, repeated=repeated, _lit=_lit, _txt=_txt)
 
 
 def bytes_template(option_value, name):
@@ -750,7 +761,7 @@ def bytes_template(option_value, name):
     {% if b['contains'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ b['contains'] }} in {{ name }}:
-        raise ValidationFailed(\"{{ name }} does not contain {{ b['contains'] }}\")
+        raise ValidationFailed(\"{{ name }} does not contain {{ _txt(b['contains']) }}\")
         {% else %}
     if not b\"{{ b['contains'].encode('string_escape') }}\" in {{ name }}:
         raise ValidationFailed(\"{{ name }} does not contain \")
@@ -759,7 +770,7 @@ def bytes_template(option_value, name):
     {% if b['prefix'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ name }}.startswith({{ b['prefix'] }}):
-        raise ValidationFailed(\"{{ name }} does not start with prefix {{ b['prefix'] }}\")
+        raise ValidationFailed(\"{{ name }} does not start with prefix {{ _txt(b['prefix']) }}\")
         {% else %}
     if not {{name}}.startswith(b\"{{ b['prefix'].encode('string_escape') }}\"):
         raise ValidationFailed(\"{{ name }} does not start with prefix {{ b['prefix'].encode('string_escape') }}\")
@@ -768,7 +779,7 @@ def bytes_template(option_value, name):
     {% if b['suffix'] %}
         {% if sys.version_info[0] >= 3 %}
     if not {{ name }}.endswith({{ b['suffix'] }}):
-        raise ValidationFailed(\"{{ name }} does not end with suffix {{ b['suffix'] }}\")
+        raise ValidationFailed(\"{{ name }} does not end with suffix {{ _txt(b['suffix']) }}\")
         {% else %}
     if not {{name}}.endswith(b\"{{ b['suffix'].encode('string_escape') }}\"):
         raise ValidationFailed(\"{{ name }} does not end with suffix {{ b['suffix'] }}\")
@@ -777,7 +788,8 @@ def bytes_template(option_value, name):
     {% endfilter %}
     """
     return Template(bytes_tmpl).render(sys=sys, o=option_value, name=name,
-                                       const_template=const_template, in_template=in_template, b=option_value.bytes)
+                                       const_template=const_template, in_template=in_template, b=option_value.bytes,
+                                       _txt=_txt)
 
 
 def switcher_template(accessor, name, field, map=False):
-- 
2.43.0


From ff09451e3f367ead6df76624a2ebcd1c4c831229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 54/70] fix: Python: infinite constants were no names of the
 generated code

---
 python/protoc_gen_validate/validator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 2f4a845..0681858 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -5,6 +5,7 @@ import time
 import uuid
 from functools import lru_cache
 from ipaddress import IPv4Address, IPv6Address, ip_address
+from math import inf, nan  # noqa: F401 (literals of generated code)
 from urllib import parse as urlparse
 
 from google.protobuf.message import Message
-- 
2.43.0


From ea285046900beaa984f5d53061165861bce5e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 55/70] fix: Python: rules whose constant is zero or empty were
 left out

---
 python/protoc_gen_validate/validator.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 0681858..c4da962 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -150,7 +150,7 @@ def const_template(option_value, name):
     {%- elif str(o.bool) and o.bool['const'] != "" -%}
     if {{ name }} != {{ o.bool['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.bool['const'] }}\")
-    {%- elif str(o.enum) and o.enum['const'] -%}
+    {%- elif str(o.enum) and o.enum.HasField('const') -%}
     if {{ name }} != {{ o.enum['const'] }}:
         raise ValidationFailed(\"{{ name }} not equal to {{ o.enum['const'] }}\")
     {%- elif str(o.bytes) and o.bytes.HasField('const') -%}
@@ -199,7 +199,7 @@ def string_template(option_value, name):
     {% filter indent(i,True) %}
     {{ const_template(o, name) -}}
     {{ in_template(o.string, name) -}}
-    {%- if s['len'] %}
+    {%- if s.HasField('len') %}
     if len({{ name }}) != {{ s['len'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ s['len'] }}\")
     {%- endif -%}
@@ -207,11 +207,11 @@ def string_template(option_value, name):
     if len({{ name }}) < {{ s['min_len'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ s['min_len'] }}\")
     {%- endif -%}
-    {%- if s['max_len'] %}
+    {%- if s.HasField('max_len') %}
     if len({{ name }}) > {{ s['max_len'] }}:
         raise ValidationFailed(\"{{ name }} length is more than {{ s['max_len'] }}\")
     {%- endif -%}
-    {%- if s['len_bytes'] %}
+    {%- if s.HasField('len_bytes') %}
     if byte_len({{ name }}) != {{ s['len_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ s['len_bytes'] }}\")
     {%- endif -%}
@@ -219,7 +219,7 @@ def string_template(option_value, name):
     if byte_len({{ name }}) < {{ s['min_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ s['min_bytes'] }}\")
     {%- endif -%}
-    {%- if s['max_bytes'] %}
+    {%- if s.HasField('max_bytes') %}
     if byte_len({{ name }}) > {{ s['max_bytes'] }}:
         raise ValidationFailed(\"{{ name }} length is greater than {{ s['max_bytes'] }}\")
     {%- endif -%}
@@ -239,7 +239,7 @@ def string_template(option_value, name):
     if not {{ _lit(s['contains']) }} in {{ name }}:
         raise ValidationFailed(\"{{ name }} does not contain {{ _txt(s['contains']) }}\")
     {%- endif -%}
-    {%- if s['not_contains'] %}
+    {%- if s.HasField('not_contains') %}
     if {{ _lit(s['not_contains']) }} in {{ name }}:
         raise ValidationFailed(\"{{ name }} contains {{ _txt(s['not_contains']) }}\")
     {%- endif -%}
@@ -720,7 +720,7 @@ def bytes_template(option_value, name):
     {% filter indent(i,True) %}
     {{ const_template(o, name) -}}
     {{ in_template(o.bytes, name) -}}
-    {%- if b['len'] %}
+    {%- if b.HasField('len') %}
     if len({{ name }}) != {{ b['len'] }}:
         raise ValidationFailed(\"{{ name }} length does not equal {{ b['len'] }}\")
     {%- endif -%}
@@ -728,7 +728,7 @@ def bytes_template(option_value, name):
     if len({{ name }}) < {{ b['min_len'] }}:
         raise ValidationFailed(\"{{ name }} length is less than {{ b['min_len'] }}\")
     {%- endif -%}
-    {%- if b['max_len'] %}
+    {%- if b.HasField('max_len') %}
     if len({{ name }}) > {{ b['max_len'] }}:
         raise ValidationFailed(\"{{ name }} length is more than {{ b['max_len'] }}\")
     {%- endif -%}
@@ -858,7 +858,7 @@ def repeated_template(option_value, name, field):
     if len({{ name }}) < {{ o.repeated['min_items'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at least {{ o.repeated['min_items'] }} items\")
     {%- endif %}
-    {%- if o and o.repeated['max_items'] %}
+    {%- if o and o.repeated.HasField('max_items') %}
     if len({{ name }}) > {{ o.repeated['max_items'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at most {{ o.repeated['max_items'] }} items\")
     {%- endif %}
@@ -907,7 +907,7 @@ def map_template(option_value, name, field):
     if len({{ name }}) < {{ o.map['min_pairs'] }}:
         raise ValidationFailed(\"{{ name }} needs to contain at least {{ o.map['min_pairs'] }} items\")
     {%- endif %}
-    {%- if o and o.map['max_pairs'] %}
+    {%- if o and o.map.HasField('max_pairs') %}
     if len({{ name }}) > {{ o.map['max_pairs'] }}:
         raise ValidationFailed(\"{{ name }} can contain at most {{ o.map['max_pairs'] }} items\")
     {%- endif %}
-- 
2.43.0


From c7b6b66ecd905e151b56575fad8898dc00ff0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 56/70] fix: Python: ignore_empty: false was taken for true

---
 python/protoc_gen_validate/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index c4da962..61a7d98 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -338,7 +338,7 @@ def bool_template(option_value, name):
 def num_template(option_value, name, num):
     num_tmpl = """
     {% set i = 0 %}
-    {%- if num.HasField('ignore_empty') -%}
+    {%- if num['ignore_empty'] -%}
     if {{ name }}:
     {% set i = 4 %}
     {%- endif -%}
-- 
2.43.0


From 1440b0e607db7fc137ad260fb12a1bc609a8f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 57/70] fix: Python: patterns of bytes lost their backslashes

---
 python/protoc_gen_validate/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 61a7d98..343b4bd 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -752,7 +752,7 @@ def bytes_template(option_value, name):
     {%- endif -%}
     {% if b['pattern'] %}
         {% if sys.version_info[0] >= 3%}
-    if re.search({{ b['pattern'].encode('unicode-escape') }}, {{ name }}) is None:
+    if re.search({{ b['pattern'].encode('utf-8') }}, {{ name }}) is None:
         raise ValidationFailed(\"{{ name }} pattern does not match b['pattern'].encode('unicode-escape')\")
         {% else %}
     if re.search(b\"{{ b['pattern'].encode('unicode-escape') }}\", {{ name }}) is None:
-- 
2.43.0


From c824677ae0674bd9961e5f7ec2575bbf2a23d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 58/70] fix: Python: lines of the generated code ran into each
 other or had no body

---
 python/protoc_gen_validate/validator.py | 35 ++++++++++++++-----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 343b4bd..56ac7eb 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -192,8 +192,9 @@ def string_template(option_value, name):
     str_templ = """
     {%- set s = o.string -%}
     {% set i = 0 %}
-    {%- if s['ignore_empty'] -%}
+    {%- if s['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -338,8 +339,9 @@ def bool_template(option_value, name):
 def num_template(option_value, name, num):
     num_tmpl = """
     {% set i = 0 %}
-    {%- if num['ignore_empty'] -%}
+    {%- if num['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -461,7 +463,7 @@ def duration_template(option_value, name, repeated=False):
                 {%- if dur_lit(dur['lt']) > dur_lit(dur['gt']) %}
         if dur <= gt or dur >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gt']) }}\")
-                {%- else -%}
+                {%- else %}
         if dur >= lt and dur <= gt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lt']) }}\")
                 {%- endif -%}
@@ -469,11 +471,11 @@ def duration_template(option_value, name, repeated=False):
                 {%- if dur_lit(dur['lt']) > dur_lit(dur['gte']) %}
         if dur < gte or dur >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gte']) }}\")
-                {%- else -%}
+                {%- else %}
         if dur >= lt and dur < gte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gte']), dur_lit(dur['lt']) }}\")
                 {%- endif -%}
-            {%- else -%}
+            {%- else %}
         if dur >= lt:
             raise ValidationFailed(\"{{ name }} is not lesser than {{ dur_lit(dur['lt']) }}\")
             {%- endif -%}
@@ -482,7 +484,7 @@ def duration_template(option_value, name, repeated=False):
                 {%- if dur_lit(dur['lte']) > dur_lit(dur['gt']) %}
         if dur <= gt or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gt']) }}\")
-                {%- else -%}
+                {%- else %}
         if dur > lte and dur <= gt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lte']) }}\")
                 {%- endif -%}
@@ -490,11 +492,11 @@ def duration_template(option_value, name, repeated=False):
                 {%- if dur_lit(dur['lte']) > dur_lit(dur['gte']) %}
         if dur < gte or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gte']) }}\")
-                {%- else -%}
+                {%- else %}
         if dur > lte and dur < gte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gte']), dur_lit(dur['lte']) }}\")
                 {%- endif -%}
-            {%- else -%}
+            {%- else %}
         if dur > lte:
             raise ValidationFailed(\"{{ name }} is not lesser than or equal to {{ dur_lit(dur['lte']) }}\")
             {%- endif -%}
@@ -549,7 +551,7 @@ def timestamp_template(option_value, name, repeated=False):
                 {%- if dur_lit(ts['lt']) > dur_lit(ts['gt']) %}
         if ts <= gt or ts >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gt']) }}\")
-                {%- else -%}
+                {%- else %}
         if ts >= lt and ts <= gt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lt']) }}\")
                 {%- endif -%}
@@ -557,11 +559,11 @@ def timestamp_template(option_value, name, repeated=False):
                 {%- if dur_lit(ts['lt']) > dur_lit(ts['gte']) %}
         if ts < gte or ts >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gte']) }}\")
-                {%- else -%}
+                {%- else %}
         if ts >= lt and ts < gte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gte']), dur_lit(ts['lt']) }}\")
                 {%- endif -%}
-            {%- else -%}
+            {%- else %}
         if ts >= lt:
             raise ValidationFailed(\"{{ name }} is not lesser than {{ dur_lit(ts['lt']) }}\")
             {%- endif -%}
@@ -570,7 +572,7 @@ def timestamp_template(option_value, name, repeated=False):
                 {%- if dur_lit(ts['lte']) > dur_lit(ts['gt']) %}
         if ts <= gt or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gt']) }}\")
-                {%- else -%}
+                {%- else %}
         if ts > lte and ts <= gt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lte']) }}\")
                 {%- endif -%}
@@ -578,11 +580,11 @@ def timestamp_template(option_value, name, repeated=False):
                 {%- if dur_lit(ts['lte']) > dur_lit(ts['gte']) %}
         if ts < gte or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gte']) }}\")
-                {%- else -%}
+                {%- else %}
         if ts > lte and ts < gte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gte']), dur_lit(ts['lte']) }}\")
                 {%- endif -%}
-            {%- else -%}
+            {%- else %}
         if ts > lte:
             raise ValidationFailed(\"{{ name }} is not lesser than or equal to {{ dur_lit(ts['lte']) }}\")
             {%- endif -%}
@@ -713,8 +715,9 @@ def any_template(option_value, name, repeated=False):
 def bytes_template(option_value, name):
     bytes_tmpl = """
     {% set i = 0 %}
-    {%- if b['ignore_empty'] -%}
+    {%- if b['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -851,6 +854,7 @@ def repeated_template(option_value, name, field):
     {% set i = 0 %}
     {%- if o and o.repeated['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
@@ -900,6 +904,7 @@ def map_template(option_value, name, field):
     {% set i = 0 %}
     {%- if o and o.map['ignore_empty'] %}
     if {{ name }}:
+        pass
     {% set i = 4 %}
     {%- endif -%}
     {% filter indent(i,True) %}
-- 
2.43.0


From 7741daf2fe3d340a9bf1f2d9fcefc844023f2e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 59/70] fix: Python: durations and timestamps were compared as
 floats

---
 python/protoc_gen_validate/validator.py | 75 ++++++++++++++-----------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 56ac7eb..2760c9f 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -424,6 +424,15 @@ def dur_lit(dur):
     return value
 
 
+def dur_nanos(dur):
+    """All of the nanoseconds: a float would not tell them apart."""
+    return dur.seconds * 10**9 + dur.nanos
+
+
+def dur_nanos_arr(dur):
+    return [dur_nanos(val) for val in dur]
+
+
 def duration_template(option_value, name, repeated=False):
     dur_tmpl = """
     {{- required_template(o.duration, name) }}
@@ -432,35 +441,35 @@ def duration_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        dur = {{ name }}.seconds + round((10**-9 * {{ name }}.nanos), 9)
+        dur = dur_nanos({{ name }})
         {%- set dur = o.duration -%}
         {%- if dur.HasField('lt') %}
-        lt = {{ dur_lit(dur['lt']) }}
+        lt = {{ dur_nanos(dur['lt']) }}
         {% endif %}
         {%- if dur.HasField('lte') %}
-        lte = {{ dur_lit(dur['lte']) }}
+        lte = {{ dur_nanos(dur['lte']) }}
         {% endif %}
         {%- if dur.HasField('gt') %}
-        gt = {{ dur_lit(dur['gt']) }}
+        gt = {{ dur_nanos(dur['gt']) }}
         {% endif %}
         {%- if dur.HasField('gte') %}
-        gte = {{ dur_lit(dur['gte']) }}
+        gte = {{ dur_nanos(dur['gte']) }}
         {% endif %}
         {%- if dur.HasField('const') %}
-        if dur != {{ dur_lit(dur['const']) }}:
+        if dur != {{ dur_nanos(dur['const']) }}:
             raise ValidationFailed(\"{{ name }} is not equal to {{ dur_lit(dur['const']) }}\")
         {%- endif -%}
         {%- if dur['in'] %}
-        if dur not in {{ dur_arr(dur['in']) }}:
+        if dur not in {{ dur_nanos_arr(dur['in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(dur['in']) }}\")
         {%- endif -%}
         {%- if dur['not_in'] %}
-        if dur in {{ dur_arr(dur['not_in']) }}:
+        if dur in {{ dur_nanos_arr(dur['not_in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(dur['not_in']) }}\")
         {%- endif -%}
         {%- if dur.HasField('lt') %}
             {%- if dur.HasField('gt') %}
-                {%- if dur_lit(dur['lt']) > dur_lit(dur['gt']) %}
+                {%- if dur_nanos(dur['lt']) > dur_nanos(dur['gt']) %}
         if dur <= gt or dur >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gt']) }}\")
                 {%- else %}
@@ -468,7 +477,7 @@ def duration_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lt']) }}\")
                 {%- endif -%}
             {%- elif dur.HasField('gte') %}
-                {%- if dur_lit(dur['lt']) > dur_lit(dur['gte']) %}
+                {%- if dur_nanos(dur['lt']) > dur_nanos(dur['gte']) %}
         if dur < gte or dur >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lt']), dur_lit(dur['gte']) }}\")
                 {%- else %}
@@ -481,7 +490,7 @@ def duration_template(option_value, name, repeated=False):
             {%- endif -%}
         {%- elif dur.HasField('lte') %}
             {%- if dur.HasField('gt') %}
-                {%- if dur_lit(dur['lte']) > dur_lit(dur['gt']) %}
+                {%- if dur_nanos(dur['lte']) > dur_nanos(dur['gt']) %}
         if dur <= gt or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gt']) }}\")
                 {%- else %}
@@ -489,7 +498,7 @@ def duration_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['gt']), dur_lit(dur['lte']) }}\")
                 {%- endif -%}
             {%- elif dur.HasField('gte') %}
-                {%- if dur_lit(dur['lte']) > dur_lit(dur['gte']) %}
+                {%- if dur_nanos(dur['lte']) > dur_nanos(dur['gte']) %}
         if dur < gte or dur > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(dur['lte']), dur_lit(dur['gte']) }}\")
                 {%- else %}
@@ -509,7 +518,8 @@ def duration_template(option_value, name, repeated=False):
         {%- endif -%}
     """
     return Template(dur_tmpl).render(o=option_value, name=name, required_template=required_template,
-                                     dur_lit=dur_lit, dur_arr=dur_arr, repeated=repeated)
+                                     dur_lit=dur_lit, dur_arr=dur_arr, dur_nanos=dur_nanos,
+                                     dur_nanos_arr=dur_nanos_arr, repeated=repeated)
 
 
 def timestamp_template(option_value, name, repeated=False):
@@ -520,35 +530,35 @@ def timestamp_template(option_value, name, repeated=False):
     {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
     {% endif %}
-        ts = {{ name }}.seconds + round((10**-9 * {{ name }}.nanos), 9)
+        ts = dur_nanos({{ name }})
         {%- set ts = o.timestamp -%}
         {%- if ts.HasField('lt') %}
-        lt = {{ dur_lit(ts['lt']) }}
+        lt = {{ dur_nanos(ts['lt']) }}
         {% endif -%}
         {%- if ts.HasField('lte') %}
-        lte = {{ dur_lit(ts['lte']) }}
+        lte = {{ dur_nanos(ts['lte']) }}
         {% endif -%}
         {%- if ts.HasField('gt') %}
-        gt = {{ dur_lit(ts['gt']) }}
+        gt = {{ dur_nanos(ts['gt']) }}
         {% endif -%}
         {%- if ts.HasField('gte') %}
-        gte = {{ dur_lit(ts['gte']) }}
+        gte = {{ dur_nanos(ts['gte']) }}
         {% endif -%}
         {%- if ts.HasField('const') %}
-        if ts != {{ dur_lit(ts['const']) }}:
+        if ts != {{ dur_nanos(ts['const']) }}:
             raise ValidationFailed(\"{{ name }} is not equal to {{ dur_lit(ts['const']) }}\")
         {% endif %}
         {%- if ts['in'] %}
-        if ts not in {{ dur_arr(ts['in']) }}:
+        if ts not in {{ dur_nanos_arr(ts['in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(ts['in']) }}\")
         {%- endif %}
         {%- if ts['not_in'] %}
-        if ts in {{ dur_arr(ts['not_in']) }}:
+        if ts in {{ dur_nanos_arr(ts['not_in']) }}:
             raise ValidationFailed(\"{{ name }} is not in {{ dur_arr(ts['not_in']) }}\")
         {%- endif %}
         {%- if ts.HasField('lt') %}
             {%- if ts.HasField('gt') %}
-                {%- if dur_lit(ts['lt']) > dur_lit(ts['gt']) %}
+                {%- if dur_nanos(ts['lt']) > dur_nanos(ts['gt']) %}
         if ts <= gt or ts >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gt']) }}\")
                 {%- else %}
@@ -556,7 +566,7 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lt']) }}\")
                 {%- endif -%}
             {%- elif ts.HasField('gte') %}
-                {%- if dur_lit(ts['lt']) > dur_lit(ts['gte']) %}
+                {%- if dur_nanos(ts['lt']) > dur_nanos(ts['gte']) %}
         if ts < gte or ts >= lt:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lt']), dur_lit(ts['gte']) }}\")
                 {%- else %}
@@ -569,7 +579,7 @@ def timestamp_template(option_value, name, repeated=False):
             {%- endif -%}
         {%- elif ts.HasField('lte') %}
             {%- if ts.HasField('gt') %}
-                {%- if dur_lit(ts['lte']) > dur_lit(ts['gt']) %}
+                {%- if dur_nanos(ts['lte']) > dur_nanos(ts['gt']) %}
         if ts <= gt or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gt']) }}\")
                 {%- else %}
@@ -577,7 +587,7 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['gt']), dur_lit(ts['lte']) }}\")
                 {%- endif -%}
             {%- elif ts.HasField('gte') %}
-                {%- if dur_lit(ts['lte']) > dur_lit(ts['gte']) %}
+                {%- if dur_nanos(ts['lte']) > dur_nanos(ts['gte']) %}
         if ts < gte or ts > lte:
             raise ValidationFailed(\"{{ name }} is not in range {{ dur_lit(ts['lte']), dur_lit(ts['gte']) }}\")
                 {%- else %}
@@ -595,9 +605,9 @@ def timestamp_template(option_value, name, repeated=False):
         if ts < gte:
             raise ValidationFailed(\"{{ name }} is not greater than or equal to {{ dur_lit(ts['gte']) }}\")
         {%- elif ts.HasField('lt_now') %}
-        now = time.time()
+        now = int(time.time() * 10**9)
             {%- if ts.HasField('within') %}
-        within = {{ dur_lit(ts['within']) }}
+        within = {{ dur_nanos(ts['within']) }}
         if ts >= now or ts <= now - within:
             raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
             {%- else %}
@@ -605,9 +615,9 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not lesser than now\")
             {%- endif -%}
         {%- elif ts.HasField('gt_now') %}
-        now = time.time()
+        now = int(time.time() * 10**9)
             {%- if ts.HasField('within') %}
-        within = {{ dur_lit(ts['within']) }}
+        within = {{ dur_nanos(ts['within']) }}
         if ts <= now or ts >= now + within:
             raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
             {%- else %}
@@ -615,14 +625,15 @@ def timestamp_template(option_value, name, repeated=False):
             raise ValidationFailed(\"{{ name }} is not greater than now\")
             {%- endif -%}
         {%- elif ts.HasField('within') %}
-        now = time.time()
-        within = {{ dur_lit(ts['within']) }}
+        now = int(time.time() * 10**9)
+        within = {{ dur_nanos(ts['within']) }}
         if ts >= now + within or ts <= now - within:
              raise ValidationFailed(\"{{ name }} is not within range {{ dur_lit(ts['within']) }}\")
         {%- endif -%}
     """
     return Template(timestamp_tmpl).render(o=option_value, name=name, required_template=required_template,
-                                           dur_lit=dur_lit, dur_arr=dur_arr, repeated=repeated)
+                                           dur_lit=dur_lit, dur_arr=dur_arr, dur_nanos=dur_nanos,
+                                           dur_nanos_arr=dur_nanos_arr, repeated=repeated)
 
 
 def wrapper_template(option_value, name, repeated=False):
-- 
2.43.0


From 550e9c3f78de8fb408b45730d42241bbc59c4ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 60/70] fix: Python: rules with nothing in them were an
 AttributeError

---
 python/protoc_gen_validate/validator.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 2760c9f..6f0ad30 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -1015,8 +1015,6 @@ def rule_type(field):
                     return repeated_template(option_value, name, field)
                 elif str(option_value.map):
                     return map_template(option_value, name, field)
-                elif str(option_value.required):
-                    return required_template(option_value, name)
     if field.message_type:
         for option_descriptor, option_value in field.GetOptions().ListFields():
             if option_descriptor.full_name == "validate.rules":
@@ -1036,8 +1034,6 @@ def rule_type(field):
                     return repeated_template(option_value, name, field)
                 elif str(option_value.map):
                     return map_template(option_value, name, field)
-                elif str(option_value.required):
-                    return required_template(option_value, name)
         if field.message_type.full_name.startswith("google.protobuf"):
             return ""
         elif is_map(field):
-- 
2.43.0


From 3a6f089168617d528a58056ea50c0d8cdb369b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:21 +0000
Subject: [PATCH 61/70] fix: Python: rules of elements: required, messages,
 wrappers, bytes

---
 python/protoc_gen_validate/validator.py | 28 ++++++++++++++-----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 6f0ad30..0ce3488 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -308,25 +308,21 @@ def required_template(value, name):
     return Template(req_tmpl).render(value=value, name=name)
 
 
-def message_template(option_value, name, repeated=False):
+def message_template(option_value, name):
     message_tmpl = """{%- if m.message %}
     {{- required_template(m.message, name) }}
     {%- endif -%}
     {%- if m.message and m.message['skip'] %}
     # Skipping validation for {{ name }}
     {%- else %}
-    {% if repeated %}
-    if {{ name }}:
-    {% else %}
     if _has_field(p, \"{{ name.split('.')[-1] }}\"):
-    {% endif %}
         embedded = validate(p.{{ name }})
         if embedded is not None:
             return embedded
     {%- endif -%}
     """
     return Template(message_tmpl).render(
-        m=option_value, name=name, required_template=required_template, repeated=repeated)
+        m=option_value, name=name, required_template=required_template)
 
 
 def bool_template(option_value, name):
@@ -435,7 +431,9 @@ def dur_nanos_arr(dur):
 
 def duration_template(option_value, name, repeated=False):
     dur_tmpl = """
+    {%- if not repeated %}
     {{- required_template(o.duration, name) }}
+    {%- endif %}
     {% if repeated %}
     if {{ name }}:
     {% else %}
@@ -524,7 +522,9 @@ def duration_template(option_value, name, repeated=False):
 
 def timestamp_template(option_value, name, repeated=False):
     timestamp_tmpl = """
+    {%- if not repeated %}
     {{- required_template(o.timestamp, name) }}
+    {%- endif %}
     {% if repeated %}
     if {{ name }}:
     {% else %}
@@ -699,7 +699,9 @@ def enum_template(option_value, name, field):
 
 def any_template(option_value, name, repeated=False):
     any_tmpl = """
+    {%- if not repeated %}
     {{- required_template(o, name) }}
+    {%- endif %}
     {%- if o['in'] %}
     {% if repeated %}
     if {{ name }}:
@@ -845,19 +847,20 @@ def switcher_template(accessor, name, field, map=False):
     {{- duration_template(accessor, name, True)|indent(4,True) -}}
     {%- elif str(accessor.timestamp) %}
     {{- timestamp_template(accessor, name, True)|indent(4,True) -}}
-    {%- elif str(accessor.message) %}
-    {{- message_template(accessor, name, True)|indent(4,True) -}}
     {%- elif str(accessor.any) %}
     {{- any_template(accessor, name, True)|indent(4,True) -}}
-    {%- elif str(accessor.message) %}
-    {{- message_template(accessor, name, True)|indent(4,True) -}}
+    {%- elif str(accessor.bytes) %}
+    {{- bytes_template(accessor, name)|indent(4,True) -}}
     {%- endif %}
     """
+    element = field.message_type.fields[1].message_type if map else field.message_type
+    if element and element.full_name.startswith("google.protobuf.") and element.full_name.endswith("Value"):
+        name += ".value"
     return Template(switcher_tmpl).render(accessor=accessor, name=name, str=str, num_template=num_template,
                                           bool_template=bool_template, string_template=string_template,
                                           enum_template=enum_template, duration_template=duration_template,
                                           timestamp_template=timestamp_template, any_template=any_template,
-                                          message_template=message_template, field=field, map=map)
+                                          bytes_template=bytes_template, field=field, map=map)
 
 
 def repeated_template(option_value, name, field):
@@ -961,7 +964,8 @@ def map_template(option_value, name, field):
         {%- set values = o.map['values'] -%}
         {{ switcher_template(values, name +'[key]', field, True) }}
         pass
-    {%- elif field.message_type.fields[1].message_type %}
+    {%- endif %}
+    {%- if field.message_type.fields[1].message_type and not (o and o.map['values'].message.skip) %}
     for key in {{ name }}:
         validate({{ name }}[key])
     {%- endif %}
-- 
2.43.0


From 566dd7357d83433aeded001fb2fc3a578ea7be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 62/70] fix: Python: formats: URIs without a path, UUIDs
 without dashes, scoped addresses

---
 python/protoc_gen_validate/validator.py | 46 +++++++++++++++++++------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 0ce3488..aeac855 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -2,7 +2,6 @@ import re
 import struct
 import sys
 import time
-import uuid
 from functools import lru_cache
 from ipaddress import IPv4Address, IPv6Address, ip_address
 from math import inf, nan  # noqa: F401 (literals of generated code)
@@ -23,6 +22,17 @@ regex_map = {
 }
 
 
+uuid_pattern = re.compile(r'[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}\Z')
+
+# RFC 3986, Appendix A and B.
+uri_pattern = re.compile(
+    r"(?:(?P<scheme>[a-zA-Z][a-zA-Z0-9+.-]*):)?"
+    r"(?://(?:[\w.~!$&'()*+,;=:@\[\]-]|%[0-9a-fA-F]{2})*(?=[/?#]|\Z))?"
+    r"(?:[\w.~!$&'()*+,;=:@/-]|%[0-9a-fA-F]{2})*"
+    r"(?:\?(?:[\w.~!$&'()*+,;=:@/?-]|%[0-9a-fA-F]{2})*)?"
+    r"(?:\#(?:[\w.~!$&'()*+,;=:@/?-]|%[0-9a-fA-F]{2})*)?\Z", re.ASCII)
+
+
 class ValidationFailed(Exception):
     pass
 
@@ -122,6 +132,24 @@ def _validateEmail(addr):
     return _validateHostName(parts[1])
 
 
+def _validateUri(uri, absolute):
+    match = uri_pattern.match(uri)
+    if match is None or absolute and not match.group('scheme'):
+        return False
+    try:
+        # Of a host and a port, too.
+        return urlparse.urlparse(uri).port is None or True
+    except ValueError:
+        return False
+
+
+def _validateIp(addr, parse):
+    # No zone of a scoped address, which some versions of Python would accept.
+    if '%' in addr:
+        raise ValueError(addr)
+    return parse(addr)
+
+
 def _has_field(message_pb, property_name):
     # NOTE: As of proto3, HasField() only works for message fields, not for
     #       singular (non-message) fields. First try to use HasField and
@@ -254,14 +282,14 @@ def string_template(option_value, name):
     {%- endif -%}
     {%- if s['address'] %}
     try:
-        ip_address({{ name }})
+        _validateIp({{ name }}, ip_address)
     except ValueError:
         if not _validateHostName({{ name }}):
             raise ValidationFailed(\"{{ name }} is not a valid address\")
     {%- endif -%}
     {%- if s['ip'] %}
     try:
-        ip_address({{ name }})
+        _validateIp({{ name }}, ip_address)
     except ValueError:
         raise ValidationFailed(\"{{ name }} is not a valid ip\")
     {%- endif -%}
@@ -273,24 +301,20 @@ def string_template(option_value, name):
     {%- endif -%}
     {%- if s['ipv6'] %}
     try:
-        IPv6Address({{ name }})
+        _validateIp({{ name }}, IPv6Address)
     except ValueError:
         raise ValidationFailed(\"{{ name }} is not a valid ipv6\")
     {%- endif %}
     {%- if s['uri'] %}
-    url = urlparse.urlparse({{ name }})
-    if not all([url.scheme, url.netloc, url.path]):
+    if not _validateUri({{ name }}, True):
         raise ValidationFailed(\"{{ name }} is not a valid uri\")
     {%- endif %}
     {%- if s['uri_ref'] %}
-    url = urlparse.urlparse({{ name }})
-    if not all([url.scheme, url.path]) and url.fragment:
+    if not _validateUri({{ name }}, False):
         raise ValidationFailed(\"{{ name }} is not a valid uri ref\")
     {%- endif -%}
     {%- if s['uuid'] %}
-    try:
-        uuid.UUID({{ name }})
-    except ValueError:
+    if not uuid_pattern.match({{ name }}):
         raise ValidationFailed(\"{{ name }} is not a valid UUID\")
     {%- endif -%}
     {% endfilter %}
-- 
2.43.0


From feec67677124d137cf14048b0b2a1db32e702f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 63/70] fix: Python: the $ of a pattern matched before a final
 line feed

---
 python/protoc_gen_validate/validator.py | 26 ++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index aeac855..657b306 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -16,9 +16,9 @@ printer = ""
 # Well known regex mapping.
 regex_map = {
     "UNKNOWN": "",
-    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+-.^_|~\x60]+$',
-    "HTTP_HEADER_VALUE": r'^[^\u0000-\u0008\u000A-\u001F\u007F]*$',
-    "HEADER_STRING": r'^[^\u0000\u000A\u000D]*$'
+    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+-.^_|~\x60]+\Z',
+    "HTTP_HEADER_VALUE": r'^[^\u0000-\u0008\u000A-\u001F\u007F]*\Z',
+    "HEADER_STRING": r'^[^\u0000\u000A\u000D]*\Z'
 }
 
 
@@ -166,6 +166,18 @@ def _lit(value):
     return ascii(value if isinstance(value, (str, bytes)) else list(value))
 
 
+def _pattern(value):
+    """The literal of a pattern.
+
+    A $ of RE2 is the end of the text; one of Python would match before a final line feed, too.
+    """
+    if not re.search(r'\(\?[a-zA-Z]*m', value):
+        # escapes, classes, all else
+        parts = re.findall(r'\\.|\[\^?\]?(?:\\.|[^\]\\])*\]|.', value, re.DOTALL)
+        value = "".join('\\Z' if part == '$' else part for part in parts)
+    return ascii(value)
+
+
 def _txt(value):
     """A constant of a rule, as part of a message in double quotes."""
     return ascii(str(value))[1:-1].replace('"', '\\"')
@@ -253,7 +265,7 @@ def string_template(option_value, name):
         raise ValidationFailed(\"{{ name }} length is greater than {{ s['max_bytes'] }}\")
     {%- endif -%}
     {%- if s['pattern'] %}
-    if re.search({{ _lit(s['pattern']) }}, {{ name }}) is None:
+    if re.search({{ _pattern(s['pattern']) }}, {{ name }}) is None:
         raise ValidationFailed(\"{{ name }} pattern does not match {{ _txt(s['pattern']) }}\")
     {%- endif -%}
     {%- if s['prefix'] %}
@@ -320,7 +332,7 @@ def string_template(option_value, name):
     {% endfilter %}
     """
     return Template(str_templ).render(o=option_value, name=name, const_template=const_template, in_template=in_template,
-                                      _lit=_lit, _txt=_txt)
+                                      _lit=_lit, _txt=_txt, _pattern=_pattern)
 
 
 def required_template(value, name):
@@ -792,7 +804,7 @@ def bytes_template(option_value, name):
     {%- endif -%}
     {% if b['pattern'] %}
         {% if sys.version_info[0] >= 3%}
-    if re.search({{ b['pattern'].encode('utf-8') }}, {{ name }}) is None:
+    if re.search({{ _pattern(b['pattern']) }}.encode('utf-8'), {{ name }}) is None:
         raise ValidationFailed(\"{{ name }} pattern does not match b['pattern'].encode('unicode-escape')\")
         {% else %}
     if re.search(b\"{{ b['pattern'].encode('unicode-escape') }}\", {{ name }}) is None:
@@ -830,7 +842,7 @@ def bytes_template(option_value, name):
     """
     return Template(bytes_tmpl).render(sys=sys, o=option_value, name=name,
                                        const_template=const_template, in_template=in_template, b=option_value.bytes,
-                                       _txt=_txt)
+                                       _txt=_txt, _pattern=_pattern)
 
 
 def switcher_template(accessor, name, field, map=False):
-- 
2.43.0


From 6fbf3404478d07b802923216676ca806ffd04e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 64/70] fix: Python: a comma was taken for a character of
 header names

---
 python/protoc_gen_validate/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index 657b306..ad5193f 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -16,7 +16,7 @@ printer = ""
 # Well known regex mapping.
 regex_map = {
     "UNKNOWN": "",
-    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+-.^_|~\x60]+\Z',
+    "HTTP_HEADER_NAME": r'^:?[0-9a-zA-Z!#$%&\'*+\-.^_|~\x60]+\Z',
     "HTTP_HEADER_VALUE": r'^[^\u0000-\u0008\u000A-\u001F\u007F]*\Z',
     "HEADER_STRING": r'^[^\u0000\u000A\u000D]*\Z'
 }
-- 
2.43.0


From 2a94cf26dea218205e1741507e8c1fe1436a6a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 65/70] fix: Python: fields named by a word of the language
 were a SyntaxError

---
 python/protoc_gen_validate/validator.py | 44 ++++++++++++++++---------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/python/protoc_gen_validate/validator.py b/python/protoc_gen_validate/validator.py
index ad5193f..8bfa327 100644
--- a/python/protoc_gen_validate/validator.py
+++ b/python/protoc_gen_validate/validator.py
@@ -1,3 +1,4 @@
+import keyword
 import re
 import struct
 import sys
@@ -183,6 +184,18 @@ def _txt(value):
     return ascii(str(value))[1:-1].replace('"', '\\"')
 
 
+def _attr(field):
+    """The value of a field: p.from is no expression."""
+    if keyword.iskeyword(field.name):
+        return "getattr(p, '%s')" % field.name
+    return "p." + field.name
+
+
+def _field_name(name):
+    """The field that a value of _attr is of."""
+    return name.split("'")[1] if "'" in name else name.split('.')[-1]
+
+
 def const_template(option_value, name):
     const_tmpl = """{%- if str(o.string) and o.string.HasField('const') -%}
     if {{ name }} != {{ _lit(o.string['const']) }}:
@@ -337,11 +350,11 @@ def string_template(option_value, name):
 
 def required_template(value, name):
     req_tmpl = """{%- if value['required'] %}
-    if not _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if not _has_field(p, \"{{ _field_name(name) }}\"):
         raise ValidationFailed(\"{{ name }} is required.\")
     {%- endif -%}
     """
-    return Template(req_tmpl).render(value=value, name=name)
+    return Template(req_tmpl).render(value=value, name=name, _field_name=_field_name)
 
 
 def message_template(option_value, name):
@@ -351,14 +364,14 @@ def message_template(option_value, name):
     {%- if m.message and m.message['skip'] %}
     # Skipping validation for {{ name }}
     {%- else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
-        embedded = validate(p.{{ name }})
+    if _has_field(p, \"{{ _field_name(name) }}\"):
+        embedded = validate(getattr(p, \"{{ name }}\"))
         if embedded is not None:
             return embedded
     {%- endif -%}
     """
     return Template(message_tmpl).render(
-        m=option_value, name=name, required_template=required_template)
+        m=option_value, name=name, required_template=required_template, _field_name=_field_name)
 
 
 def bool_template(option_value, name):
@@ -473,7 +486,7 @@ def duration_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ _field_name(name) }}\"):
     {% endif %}
         dur = dur_nanos({{ name }})
         {%- set dur = o.duration -%}
@@ -553,7 +566,7 @@ def duration_template(option_value, name, repeated=False):
     """
     return Template(dur_tmpl).render(o=option_value, name=name, required_template=required_template,
                                      dur_lit=dur_lit, dur_arr=dur_arr, dur_nanos=dur_nanos,
-                                     dur_nanos_arr=dur_nanos_arr, repeated=repeated)
+                                     dur_nanos_arr=dur_nanos_arr, repeated=repeated, _field_name=_field_name)
 
 
 def timestamp_template(option_value, name, repeated=False):
@@ -564,7 +577,7 @@ def timestamp_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ _field_name(name) }}\"):
     {% endif %}
         ts = dur_nanos({{ name }})
         {%- set ts = o.timestamp -%}
@@ -669,7 +682,7 @@ def timestamp_template(option_value, name, repeated=False):
     """
     return Template(timestamp_tmpl).render(o=option_value, name=name, required_template=required_template,
                                            dur_lit=dur_lit, dur_arr=dur_arr, dur_nanos=dur_nanos,
-                                           dur_nanos_arr=dur_nanos_arr, repeated=repeated)
+                                           dur_nanos_arr=dur_nanos_arr, repeated=repeated, _field_name=_field_name)
 
 
 def wrapper_template(option_value, name, repeated=False):
@@ -677,7 +690,7 @@ def wrapper_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if p.HasField(\"{{ name[2:] }}\"):
+    if p.HasField(\"{{ _field_name(name) }}\"):
     {% endif %}
         {%- if str(option_value.float) %}
         {{- num_template(option_value, name + ".value", option_value.float)|indent(4,True) -}}
@@ -713,7 +726,7 @@ def wrapper_template(option_value, name, repeated=False):
     """
     return Template(wrapper_tmpl).render(option_value=option_value, name=name, str=str, num_template=num_template,
                                          bool_template=bool_template, string_template=string_template,
-                                         bytes_template=bytes_template, repeated=repeated)
+                                         bytes_template=bytes_template, repeated=repeated, _field_name=_field_name)
 
 
 def enum_values(field):
@@ -742,7 +755,7 @@ def any_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ _field_name(name) }}\"):
     {% endif %}
         if {{ name }}.type_url not in {{ _lit(o['in']) }}:
             raise ValidationFailed(\"{{ name }} not in {{ _txt(o['in']) }}\")
@@ -751,14 +764,15 @@ def any_template(option_value, name, repeated=False):
     {% if repeated %}
     if {{ name }}:
     {% else %}
-    if _has_field(p, \"{{ name.split('.')[-1] }}\"):
+    if _has_field(p, \"{{ _field_name(name) }}\"):
     {% endif %}
         if {{ name }}.type_url in {{ _lit(o['not_in']) }}:
             raise ValidationFailed(\"{{ name }} in {{ _txt(o['not_in']) }}\")
     {%- endif %}
     """
     return Template(any_tmpl).render(
-        o=option_value.any, name=name, required_template=required_template, repeated=repeated, _lit=_lit, _txt=_txt)
+        o=option_value.any, name=name, required_template=required_template, repeated=repeated, _lit=_lit, _txt=_txt,
+        _field_name=_field_name)
 
 
 def bytes_template(option_value, name):
@@ -1013,7 +1027,7 @@ def map_template(option_value, name, field):
 
 
 def rule_type(field):
-    name = "p." + field.name
+    name = _attr(field)
     if has_validate(field) and field.message_type is None:
         for option_descriptor, option_value in field.GetOptions().ListFields():
             if option_descriptor.full_name == "validate.rules":
-- 
2.43.0


From 4a110096f752b8f2bd085b0295e45c5a2ab179cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 66/70] fix: validate proto3 optional fields by their presence,
 not as oneofs of their own

---
 templates/cc/msg.go           |  7 ++++++-
 templates/goshared/msg.go     |  8 +++++++-
 templates/java/msg.go         |  7 ++++++-
 templates/shared/disabled.go  | 25 +++++++++++++++++++++++++
 templates/shared/functions.go |  2 ++
 5 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index 3daf2c2..1d8773d 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -29,7 +29,7 @@ bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
 		{{ range .NonOneOfFields }}
 			{{- render (context .) -}}
 		{{ end -}}
-		{{ range .OneOfs }}
+		{{ range oneofs . }}
 			switch (m.{{ .Name }}_case()) {
 				{{ range .Fields -}}
 					case {{ oneof . }}:
@@ -44,6 +44,11 @@ bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
 					break;
 			}
 		{{ end }}
+		{{ range optionals . }}
+			if ({{ hasAccessor (context .) }}) {
+				{{ render (context .) }}
+			}
+		{{ end }}
 	return true;
 {{ end -}}
 }
diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index 7e6aaf3..75a3d94 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -33,7 +33,7 @@ func (m {{ (msgTyp .).Pointer }}) validate(all bool) error {
 			{{ render (context .) }}
 		{{ end }}
 
-		{{ range .OneOfs }}
+		{{ range oneofs . }}
 			switch m.{{ name . }}.(type) {
 				{{ range .Fields }}
 					case {{ oneof . }}:
@@ -51,6 +51,12 @@ func (m {{ (msgTyp .).Pointer }}) validate(all bool) error {
 			}
 		{{ end }}
 
+		{{ range optionals . }}
+			if m.{{ name . }} != nil {
+				{{ render (context .) }}
+			}
+		{{ end }}
+
 		if len(errors) > 0 {
 			return {{ multierrname . }}(errors)
 		}
diff --git a/templates/java/msg.go b/templates/java/msg.go
index 26ba40a..06f2cea 100644
--- a/templates/java/msg.go
+++ b/templates/java/msg.go
@@ -27,9 +27,14 @@ const msgInnerTpl = `
 	{{ range .NonOneOfFields -}}
 		{{ render (context .) }}
 	{{ end -}}
-	{{ range .OneOfs }}
+	{{ range oneofs . }}
 		{{ template "oneOf" . }}
 	{{- end -}}
+	{{ range optionals . }}
+			if ({{ hasAccessor (context .) }}) {
+				{{ render (context .) }}
+			}
+	{{- end -}}
 	{{- end }}
 	}
 `
diff --git a/templates/shared/disabled.go b/templates/shared/disabled.go
index 4ad3c1c..0bfaa64 100644
--- a/templates/shared/disabled.go
+++ b/templates/shared/disabled.go
@@ -22,3 +22,28 @@ func RequiredOneOf(oo pgs.OneOf) (required bool, err error) {
 	_, err = oo.Extension(validate.E_Required, &required)
 	return
 }
+
+// RealOneOfs returns the oneofs declared in msg, that is, without those protoc
+// makes up for the presence of an optional field
+func RealOneOfs(msg pgs.Message) (out []pgs.OneOf) {
+	for _, oo := range msg.OneOfs() {
+		if !isSynthetic(oo) {
+			out = append(out, oo)
+		}
+	}
+	return
+}
+
+// OptionalFields returns the fields of msg that are declared optional in proto3
+func OptionalFields(msg pgs.Message) (out []pgs.Field) {
+	for _, oo := range msg.OneOfs() {
+		if isSynthetic(oo) {
+			out = append(out, oo.Fields()...)
+		}
+	}
+	return
+}
+
+func isSynthetic(oo pgs.OneOf) bool {
+	return len(oo.Fields()) == 1 && oo.Fields()[0].Descriptor().GetProto3Optional()
+}
diff --git a/templates/shared/functions.go b/templates/shared/functions.go
index 36e80b2..4c99144 100644
--- a/templates/shared/functions.go
+++ b/templates/shared/functions.go
@@ -11,6 +11,8 @@ func RegisterFunctions(tpl *template.Template, params pgs.Parameters) {
 		"disabled":  Disabled,
 		"ignored":   Ignored,
 		"required":  RequiredOneOf,
+		"oneofs":    RealOneOfs,
+		"optionals": OptionalFields,
 		"context":   rulesContext,
 		"render":    Render(tpl),
 		"has":       Has,
-- 
2.43.0


From de19b94a5a3211313349b42ba981663254b09f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 67/70] fix: C++ error texts lost their "invalid", overwritten
 by what followed

---
 templates/cc/register.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index a6e7bab..5767e5c 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -228,7 +228,8 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 
 	output := []string{
 		"{",
-		`std::ostringstream msg("invalid ");`,
+		`std::ostringstream msg;`,
+		`msg << "invalid ";`,
 	}
 
 	if ctx.OnKey {
-- 
2.43.0


From d0039e03738722b9a643412874581c04a4799210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 68/70] fix: C++ error for an ill-formed duration printed a
 pointer as its cause

---
 templates/cc/duration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 0e6aefe..330457d 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -12,7 +12,7 @@ const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 			    dur.seconds() > pgv::protobuf::util::TimeUtil::kDurationMaxSeconds ||
 			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds ||
 			    (dur.seconds() > 0 && dur.nanos() < 0) || (dur.seconds() < 0 && dur.nanos() > 0))
-				{{ errCause . "err" "value is not a valid duration" }}
+				{{ err . "value is not a valid duration" }}
 
 
 			{{  if $r.Const }}
-- 
2.43.0


From 82c162054736b0f4650233b7313cd419b59dd551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 69/70] fix: C++ code with two unique fields in a message did
 not compile

---
 templates/cc/repeated.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 3acef60..88d4d0c 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -27,6 +27,7 @@ const repTpl = `
 	{{ end }}
 
 	{{ if $r.GetUnique }}
+	{
 	// Implement comparison for wrapped reference types
 	struct cmp {
 		bool operator() (const std::reference_wrapper<{{ $typ }}> lhs, const std::reference_wrapper<{{ $typ }}> rhs) const {
@@ -61,6 +62,9 @@ const repTpl = `
 			{{ render (.Elem "item" "i") }}
 		}
 	{{ end }}
+	{{ if $r.GetUnique }}
+		}
+	{{ end }}
 	{{ if $r.GetIgnoreEmpty }}
 		}
 	{{ end }}
-- 
2.43.0


From 9e7d597cc1b2eaa85fbb5031f6fadd75882202ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:15 +0000
Subject: [PATCH 70/70] fix: C++ CheckMessage wrote to the shared registry on a
 look-up of a type without a validator

---
 validate/validate.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/validate/validate.h b/validate/validate.h
index 52ae18f..1691812 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -59,9 +59,10 @@ public:
 
   static bool CheckMessage(const T& m, ValidationMsg* err)
   {
-    auto val = static_cast<Validator<T>*>(validators()[std::type_index(typeid(T))]);
-    if (val) {
-      return val->check_(m, err);
+    // operator[] would add an entry for a type without a validator.
+    const auto it = validators().find(std::type_index(typeid(T)));
+    if (it != validators().end()) {
+      return static_cast<Validator<T>*>(it->second)->check_(m, err);
     }
     return true;
   }
-- 
2.43.0

