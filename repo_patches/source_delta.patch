From 059d71f40b4837be5b551d32c3c8ed22f68b8a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 01/40] fix: keep non-ASCII characters of RIDL values intact

---
 schema/ridl/parser_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/parser_util.go b/schema/ridl/parser_util.go
index 7bc0b35..b871045 100644
--- a/schema/ridl/parser_util.go
+++ b/schema/ridl/parser_util.go
@@ -54,7 +54,8 @@ func unescapeString(in string) (string, error) {
 				return "", errors.New("unexpected end after backslash")
 			}
 		} else {
-			out = out + string(c)
+			// Copy the byte as is, it can be part of a multi-byte UTF-8 character.
+			out = out + in[i:i+1]
 		}
 	}
 
-- 
2.43.0


From 9be42f74c08e1b0a6bf0eb03d1bb446929a7bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 02/40] fix: reject '@' without annotation type instead of
 looping forever

---
 schema/ridl/service_parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 1ba8f72..4ab3b21 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -232,5 +232,10 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 		annotations = append(annotations, annotation)
 	}
 
+	if len(annotations) == 0 {
+		// "@" without annotation type
+		return nil, errUnexpectedToken
+	}
+
 	return annotations, nil
 }
-- 
2.43.0


From 8b2a94cb49670cd78cd5023b36d1fa3017926491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 03/40] fix: don't swallow the token right after a quoted
 annotation value

---
 schema/ridl/service_parser.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 4ab3b21..0f9f7cd 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -215,10 +215,9 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 		// @acl:admin
 		if p.cursor() != eofToken && p.cursor().tt == tokenWord {
 			annotation.value = newTokenNode(p.cursor())
-		}
-
-		// @auth:"cookies,authorization,query"
-		if p.cursor() != eofToken && p.cursor().tt == tokenQuote {
+			p.next()
+		} else if p.cursor() != eofToken && p.cursor().tt == tokenQuote {
+			// @auth:"cookies,authorization,query"
 			annotationValue, err := p.expectStringValue()
 			if err != nil {
 				return nil, fmt.Errorf("parse string value: %w", err)
@@ -227,8 +226,6 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 			annotation.value = newTokenNode(annotationValue)
 		}
 
-		p.next()
-
 		annotations = append(annotations, annotation)
 	}
 
-- 
2.43.0


From e03e7fa0d21cc54937446b7ac1b905fa5cd8cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 04/40] fix: don't crash on map keys that name a struct or a
 not yet resolved alias

---
 schema/ridl/ridl.go |  1 +
 schema/var_type.go  | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index da54a97..ef07f02 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -205,6 +205,7 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 		s.Types = append(s.Types, &schema.Type{
 			Kind:     schemaTypeKindAlias,
 			Name:     line.Name().String(),
+			Type:     &schema.VarType{Expr: line.TypeName().String()},
 			Comments: parseComment(line.Comments()),
 		})
 	}
diff --git a/schema/var_type.go b/schema/var_type.go
index b358507..6bf890d 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -139,7 +139,7 @@ func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 			}
 		} else {
 			t := schema.GetTypeByName(key)
-			if t == nil || t.Kind != "enum" && t.Type.Type != T_Enum {
+			if t == nil || !isEnumOrEnumAlias(schema, t) {
 				return fmt.Errorf("schema error: invalid map key '%s' for '%s'", key, expr)
 			}
 			vt.Map = &VarMapType{
@@ -264,6 +264,20 @@ func getType(schema *WebRPCSchema, structExpr string) (*Type, bool) {
 	return nil, false
 }
 
+// isEnumOrEnumAlias tells if t is an enum, or an alias of an enum. The alias may
+// not be resolved yet.
+func isEnumOrEnumAlias(schema *WebRPCSchema, t *Type) bool {
+	switch t.Kind {
+	case TypeKind_Enum:
+		return true
+	case TypeKind_Alias:
+		target, ok := getType(schema, t.Type.String())
+		return ok && target.Kind == TypeKind_Enum
+	default:
+		return false
+	}
+}
+
 var VarKeyCoreTypes = []CoreType{
 	T_String, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64,
 }
-- 
2.43.0


From 2cc2750d73a7ed5a172afe3c4f54e0dd2823fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 05/40] fix: resolve and validate underlying types of aliases
 in JSON schemas

---
 schema/type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/type.go b/schema/type.go
index 9c01264..ade0b72 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -62,12 +62,12 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		return fmt.Errorf("schema error: type must be one of 'enum', 'struct', or 'alias' for '%s'", typName)
 	}
 
-	// For aliases, validate the underlying type is set and return early
+	// For aliases, validate the underlying type and return early
 	if t.Kind == TypeKind_Alias {
 		if t.Type == nil {
 			return fmt.Errorf("schema error: alias '%s' must have an underlying type", typName)
 		}
-		return nil
+		return t.Type.Parse(schema)
 	}
 
 	// Verify field names and ensure we don't have any duplicate field names
-- 
2.43.0


From a88cbfb1ac77c3855582a573c4ace3856d3e5409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 06/40] fix: reject lists without element type and maps without
 value type

---
 schema/var_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index 6bf890d..27a86b3 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -90,7 +90,7 @@ type VarAliasType struct {
 
 func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 	if expr == "" {
-		return nil
+		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
 	vt.Expr = expr
 
-- 
2.43.0


From 76abb00bd6382171f29ef3a28c93ebb9d31820fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 07/40] fix: reject map keys that differ in letter case from
 the enum they name

---
 schema/var_type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index 27a86b3..1f5e0f1 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -138,8 +138,8 @@ func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 				Value: &VarType{},
 			}
 		} else {
-			t := schema.GetTypeByName(key)
-			if t == nil || !isEnumOrEnumAlias(schema, t) {
+			t, ok := getType(schema, key)
+			if !ok || !isEnumOrEnumAlias(schema, t) {
 				return fmt.Errorf("schema error: invalid map key '%s' for '%s'", key, expr)
 			}
 			vt.Map = &VarMapType{
-- 
2.43.0


From 216bdabcccb220e26fbcb847f13cbd3a70dd61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 08/40] fix: reject null and missing members of JSON schemas
 instead of crashing

---
 schema/parser.go   |  5 +++++
 schema/schema.go   | 11 +++++++++++
 schema/service.go  | 16 ++++++++++++++++
 schema/type.go     |  3 +++
 schema/var_type.go |  2 +-
 5 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index 732159f..8c61893 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -2,6 +2,7 @@ package schema
 
 import (
 	"encoding/json"
+	"fmt"
 	"regexp"
 )
 
@@ -16,6 +17,10 @@ func ParseSchemaJSON(jsondata []byte) (*WebRPCSchema, error) {
 		return nil, err
 	}
 
+	if schema == nil {
+		return nil, fmt.Errorf("json error: schema cannot be null")
+	}
+
 	err = schema.Validate()
 	if err != nil {
 		return schema, err
diff --git a/schema/schema.go b/schema/schema.go
index 78ed123..172b610 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -7,6 +7,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 )
 
@@ -66,6 +67,16 @@ func (s *WebRPCSchema) Validate() error {
 		}
 	}
 
+	if slices.Contains(s.Types, nil) {
+		return fmt.Errorf("schema error: type cannot be null")
+	}
+	if slices.Contains(s.Errors, nil) {
+		return fmt.Errorf("schema error: error cannot be null")
+	}
+	if slices.Contains(s.Services, nil) {
+		return fmt.Errorf("schema error: service cannot be null")
+	}
+
 	for i := range s.Types {
 		err := s.Types[i].Parse(s)
 		if err != nil {
diff --git a/schema/service.go b/schema/service.go
index 03907e3..7a8e0b5 100644
--- a/schema/service.go
+++ b/schema/service.go
@@ -73,6 +73,9 @@ func (s *Service) Parse(schema *WebRPCSchema) error {
 	// Verify method names and ensure we don't have any duplicate method names
 	methodList := map[string]string{}
 	for _, method := range s.Methods {
+		if method == nil {
+			return fmt.Errorf("schema error: method cannot be null in service '%s'", serviceName)
+		}
 		if string(method.Name) == "" {
 			return fmt.Errorf("schema error: detected empty method name in service '%s", serviceName)
 		}
@@ -109,6 +112,9 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 		return fmt.Errorf("schema error: detected multiple input arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
 	}
 	for _, input := range m.Inputs {
+		if input == nil {
+			return fmt.Errorf("schema error: input argument cannot be null for method '%s' in service '%s'", m.Name, serviceName)
+		}
 		input.InputArg = true // back-ref
 		if input.Name == "" {
 			return fmt.Errorf("schema error: detected empty input argument name for method '%s' in service '%s'", m.Name, serviceName)
@@ -124,6 +130,9 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 		return fmt.Errorf("schema error: detected multiple output arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
 	}
 	for _, output := range m.Outputs {
+		if output == nil {
+			return fmt.Errorf("schema error: output argument cannot be null for method '%s' in service '%s'", m.Name, serviceName)
+		}
 		output.OutputArg = true // back-ref
 		if output.Name == "" {
 			return fmt.Errorf("schema error: detected empty output name for method '%s' in service '%s'", m.Name, serviceName)
@@ -134,6 +143,13 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 		}
 	}
 
+	// Validate annotations
+	for name, annotation := range m.Annotations {
+		if annotation == nil {
+			return fmt.Errorf("schema error: annotation '%s' cannot be null for method '%s' in service '%s'", name, m.Name, serviceName)
+		}
+	}
+
 	// Parse+validate errors
 	for _, errorName := range m.Errors {
 		found := false
diff --git a/schema/type.go b/schema/type.go
index ade0b72..728258e 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -75,6 +75,9 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 	fieldList := map[string]string{}
 	jsonFieldList := map[string]string{}
 	for _, field := range t.Fields {
+		if field == nil {
+			return fmt.Errorf("schema error: field cannot be null in type '%s'", typName)
+		}
 		if string(field.Name) == "" {
 			return fmt.Errorf("schema error: detected empty field name in type '%s", typName)
 		}
diff --git a/schema/var_type.go b/schema/var_type.go
index 1f5e0f1..66f8307 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -53,7 +53,7 @@ func (t *VarType) UnmarshalJSON(b []byte) error {
 }
 
 func (t *VarType) Parse(schema *WebRPCSchema) error {
-	if t.Expr == "" {
+	if t == nil || t.Expr == "" {
 		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
 	err := ParseVarTypeExpr(schema, t.Expr, t)
-- 
2.43.0


From 8bc58e417810b8c6ca9918d4cfa90ed495b0adfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 09/40] fix: escape and unescape type expressions as JSON
 strings

---
 schema/var_type.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index 66f8307..48d1196 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -1,6 +1,8 @@
 package schema
 
 import (
+	"bytes"
+	"encoding/json"
 	"fmt"
 	"strings"
 )
@@ -25,31 +27,30 @@ func (t *VarType) String() string {
 }
 
 func (t *VarType) MarshalJSON() ([]byte, error) {
-	return []byte(fmt.Sprintf("%q", t)), nil
+	var buf bytes.Buffer
+
+	enc := json.NewEncoder(&buf)
+	enc.SetEscapeHTML(false)
+
+	if err := enc.Encode(t.String()); err != nil {
+		return nil, err
+	}
+
+	return buf.Bytes(), nil
 }
 
 func (t *VarType) UnmarshalJSON(b []byte) error {
 	if len(b) <= 2 {
 		return fmt.Errorf("json error: type cannot be empty")
 	}
-	s := string(b) // string value will be wrapped in quotes
 
 	// validate its a string value
-	if s[0:1] != "\"" {
+	if b[0] != '"' {
 		return fmt.Errorf("json error: string value is expected")
 	}
-	if s[len(s)-1:] != "\"" {
-		return fmt.Errorf("json error: string value is expected")
-	}
-
-	// trim string quotes from the json string
-	s = s[1:]
-	s = s[:len(s)-1]
 
 	// set the expr from value
-	t.Expr = s
-
-	return nil
+	return json.Unmarshal(b, &t.Expr)
 }
 
 func (t *VarType) Parse(schema *WebRPCSchema) error {
-- 
2.43.0


From 358e5d2075122f4ddfeea2a56ed7c53337ceb711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 10/40] fix: don't import a service twice when its file is
 imported through two paths

---
 schema/ridl/ridl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index ef07f02..92c8c6b 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -193,7 +193,7 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 				}
 			}
 			for i := range imported.Services {
-				if isImportAllowed(imported.Services[i].Name, members) {
+				if !slices.Contains(s.Services, imported.Services[i]) && isImportAllowed(imported.Services[i].Name, members) {
 					s.Services = append(s.Services, imported.Services[i])
 				}
 			}
-- 
2.43.0


From 5ad5978eb396ca8c2de7c7cc92d671dca45e4842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 11/40] fix: tree-shake schemas with recursive types and keep
 aliases in use

---
 schema/schema.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/schema/schema.go b/schema/schema.go
index 172b610..6bd6bde 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -215,6 +215,9 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 		// Struct type: mark and traverse its fields
 		if vt.Struct != nil && vt.Struct.Type != nil {
 			t := vt.Struct.Type
+			if mark[t.Name] {
+				return // already visited, the type can be recursive
+			}
 			if t.Name != "" {
 				mark[t.Name] = true
 			}
@@ -231,6 +234,18 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 				mark[t.Name] = true
 			}
 		}
+
+		// Alias type: mark and traverse its underlying type
+		if vt.Alias != nil && vt.Alias.Type != nil {
+			t := vt.Alias.Type
+			if mark[t.Name] {
+				return
+			}
+			if t.Name != "" {
+				mark[t.Name] = true
+			}
+			walkVarType(t.Type, mark)
+		}
 	}
 
 	// Traverse all methods of services; split by included/excluded.
-- 
2.43.0


From 59401aa602fd2216fe10bacef22fbd65650e7b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 12/40] fix: find bigints in mutually recursive structs

---
 schema/helpers.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/schema/helpers.go b/schema/helpers.go
index f0cbb83..bd67f59 100644
--- a/schema/helpers.go
+++ b/schema/helpers.go
@@ -108,12 +108,10 @@ func SchemaUsesBigInts(s *WebRPCSchema) bool {
 // the names Args and Return for suffixes instead of Request and Resposne suffixes for implicit method types.
 func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string][]any {
 	out := make(map[string][]any)
-	// cache for recursive detection to avoid cycles
-	visited := make(map[string]bool)
 	memo := make(map[string]bool)
 
-	var structHasBigIntRecursive func(t *Type) bool
-	structHasBigIntRecursive = func(t *Type) bool {
+	var searchStruct func(t *Type, visited map[string]bool) bool
+	searchStruct = func(t *Type, visited map[string]bool) bool {
 		if t == nil || t.Kind != TypeKind_Struct {
 			return false
 		}
@@ -125,7 +123,6 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 			return false
 		}
 		visited[name] = true
-		defer func() { visited[name] = false }()
 
 		for _, f := range t.Fields {
 			if f.Type == nil {
@@ -142,17 +139,29 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 				return true
 			}
 			// nested struct (struct types are parsed as T_Struct)
-			if f.Type.Type == T_Struct && f.Type.Struct != nil && structHasBigIntRecursive(f.Type.Struct.Type) {
+			if f.Type.Type == T_Struct && f.Type.Struct != nil && searchStruct(f.Type.Struct.Type, visited) {
 				memo[name] = true
 				return true
 			}
 			// list of nested struct
-			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && structHasBigIntRecursive(f.Type.List.Elem.Struct.Type) {
+			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && searchStruct(f.Type.List.Elem.Struct.Type, visited) {
 				memo[name] = true
 				return true
 			}
 		}
-		memo[name] = false
+		return false
+	}
+
+	structHasBigIntRecursive := func(t *Type) bool {
+		visited := make(map[string]bool)
+		if searchStruct(t, visited) {
+			return true
+		}
+		// Only now it's known that none of the visited structs has a bigint; within
+		// a cycle, the result for a single struct can be still incomplete.
+		for name := range visited {
+			memo[name] = false
+		}
 		return false
 	}
 
-- 
2.43.0


From 28f4da49e6c6af33bfe9374d3a3c7c7c97dbf9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 13/40] fix: minVersion ignores minor version when major
 version is higher

---
 gen/funcmap_flow.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/gen/funcmap_flow.go b/gen/funcmap_flow.go
index 1e41f20..d5cd861 100644
--- a/gen/funcmap_flow.go
+++ b/gen/funcmap_flow.go
@@ -42,15 +42,11 @@ func minVersion(version string, minVersion string) bool {
 		panic(fmt.Sprintf("minVersion: unexpected min version %q", minVersion))
 	}
 
-	if minMajor > major {
-		return false
-	}
-
-	if minMinor > minor {
-		return false
+	if major != minMajor {
+		return major > minMajor
 	}
 
-	return true
+	return minor >= minMinor
 }
 
 func parseMajorMinorVersion(version string) (major int, minor int, err error) {
-- 
2.43.0


From 4ac6c3ca9013716f02f5d28f664b527bcece6371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 14/40] fix: reject RIDL error codes that are out of range

---
 schema/ridl/ridl.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index 92c8c6b..10374d7 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -305,12 +305,18 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 	// error types
 	for _, line := range q.root.Errors() {
 		var errorType schema.Error
-		code, _ := strconv.ParseInt(line.code.String(), 10, 32)
+		code, err := strconv.ParseInt(line.code.String(), 10, 32)
+		if err != nil {
+			return nil, fmt.Errorf("error %q: invalid code: %w", line.name, err)
+		}
 		errorType.Code = int(code)
 		errorType.Name = line.name.String()
 		errorType.Message = line.message.String()
 		if line.httpStatus != nil {
-			httpStatus, _ := strconv.ParseInt(line.httpStatus.String(), 10, 32)
+			httpStatus, err := strconv.ParseInt(line.httpStatus.String(), 10, 32)
+			if err != nil {
+				return nil, fmt.Errorf("error %q: invalid HTTP status: %w", line.name, err)
+			}
 			errorType.HTTPStatus = int(httpStatus)
 		} else {
 			errorType.HTTPStatus = 400 // Default HTTP status code
-- 
2.43.0


From 8e5c7bd97dfb96f786744356f47f446ae296b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 15/40] fix: don't silently ignore the rest of a RIDL file
 after a NUL character

---
 schema/ridl/lexer.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/schema/ridl/lexer.go b/schema/ridl/lexer.go
index 025687a..ebbd7f6 100644
--- a/schema/ridl/lexer.go
+++ b/schema/ridl/lexer.go
@@ -170,10 +170,6 @@ func isTokenType(tt tokenType) func(r rune) bool {
 	}
 }
 
-func isEmpty(r rune) bool {
-	return r == empty
-}
-
 func isWordBreak(r rune) bool {
 	for i := range wordBreak {
 		if r == wordBreak[i] {
@@ -328,7 +324,7 @@ func lexDefaultState(lx *lexer) lexState {
 	r := lx.peek()
 
 	switch {
-	case isEmpty(r):
+	case lx.pos >= lx.length: // not a NUL character within the input
 		return nil
 
 	case isQuote(r):
-- 
2.43.0


From ff19ebb6cd6f3f80d94afc684b0c702067d2ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 16/40] fix: accept an escaped quote right after a word in
 quoted RIDL values

---
 schema/ridl/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index a5f752a..b6f7268 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -218,6 +218,15 @@ loop:
 			tok = p.cursor()
 			p.next()
 
+		case tokenWord:
+			// the word can end with a backslash that escapes a quote
+			if strings.HasSuffix(tok.val, `\`) && p.cursor().tt == tokenQuote {
+				tokens = append(tokens, tok)
+
+				tok = p.cursor()
+				p.next()
+			}
+
 		case tokenQuote:
 			// end of string
 			break loop
-- 
2.43.0


From acc75fee331935e3a9fc14e43d7e29337156a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 17/40] fix: keep the comment on the last RIDL line when the
 file doesn't end with a new line

---
 schema/ridl/tokenizer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index 5cab16b..f420961 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -42,6 +42,11 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 		tokens = append(tokens, tok)
 	}
 
+	// the last line doesn't have to end with a new line
+	if parsingComment {
+		lineComments[tokens[len(tokens)-1].line] = strings.Join(commentTokens, " ")
+	}
+
 	return tokens, lineComments, nil
 }
 
-- 
2.43.0


From 5a050f7d8bb676f5fce9bdfd05a825a06be26d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 18/40] fix: don't take '#' within quoted RIDL values for a
 comment

---
 schema/ridl/tokenizer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index f420961..5e0cc91 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -15,6 +15,7 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 	lineComments := make(map[int]string)
 
 	parsingComment := false
+	parsingString := false
 	commentTokens := []string{}
 
 	for tok := range lx.tokens {
@@ -22,8 +23,16 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 			break
 		}
 
+		// "#" within a quoted value is not a comment
+		if tok.tt == tokenNewLine {
+			parsingString = false
+		} else if tok.tt == tokenQuote && !parsingComment {
+			escaped := parsingString && strings.HasSuffix(tokens[len(tokens)-1].val, `\`)
+			parsingString = !parsingString || escaped
+		}
+
 		// start parsing comment tokens until new line
-		if tok.tt == tokenHash {
+		if tok.tt == tokenHash && !parsingString {
 			parsingComment = true
 			tokens = append(tokens, tok)
 			continue
-- 
2.43.0


From b8fb262f6be6ad616e58d442d05d7482a69925e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 19/40] fix: keep '#' within the text of RIDL comments

---
 schema/ridl/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index 5e0cc91..5aeb7ca 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -32,7 +32,7 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 		}
 
 		// start parsing comment tokens until new line
-		if tok.tt == tokenHash && !parsingString {
+		if tok.tt == tokenHash && !parsingString && len(commentTokens) == 0 {
 			parsingComment = true
 			tokens = append(tokens, tok)
 			continue
-- 
2.43.0


From 5e5f2698ce9b5bb5895f8af6b174247d95c92956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 20/40] fix: don't swallow the token right after succinct
 method arguments

---
 schema/ridl/type_parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/schema/ridl/type_parser.go b/schema/ridl/type_parser.go
index 3dc8ca6..f7bce17 100644
--- a/schema/ridl/type_parser.go
+++ b/schema/ridl/type_parser.go
@@ -94,7 +94,6 @@ loop:
 					})
 
 					tokens = append(tokens, tok)
-					p.next()
 					break loop
 				}
 			}
-- 
2.43.0


From 8e80b7a11ae1362b3bc71762818b2bf98e20908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 21/40] fix: keep comments of annotated RIDL methods with the
 method

---
 schema/ridl/parser.go         | 20 ++++++++++++++++++++
 schema/ridl/service_parser.go |  8 ++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index b6f7268..4ee19f2 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -573,3 +573,23 @@ func parseComments(comments map[int]string, currentLine int) string {
 
 	return strings.Join(c, "\n")
 }
+
+// parseMultilineComments returns comments of a definition that spans multiple lines.
+func parseMultilineComments(comments map[int]string, firstLine, lastLine int) string {
+	c := []string{}
+
+	if comment := parseComments(comments, firstLine); comment != "" {
+		c = append(c, comment)
+	}
+
+	for line := firstLine + 1; line <= lastLine; line++ {
+		if comment, ok := comments[line]; ok {
+			if !strings.HasPrefix(comment, "!") {
+				c = append(c, comment)
+			}
+			delete(comments, line)
+		}
+	}
+
+	return strings.Join(c, "\n")
+}
diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 0f9f7cd..3729bfe 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -50,16 +50,16 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 			methodName = matches[1]
 		}
 
-		commentLine := matches[0].line
-		// we have to start parsing comments from the line of last annotation
+		// the definition starts with the line of first annotation
+		firstLine := matches[0].line
 		if len(sn.methodAnnotations) > 0 {
-			commentLine = sn.methodAnnotations[len(sn.methodAnnotations)-1].AnnotationType().tok.line
+			firstLine = sn.methodAnnotations[0].AnnotationType().tok.line
 		}
 
 		mn := &MethodNode{
 			name:    newTokenNode(methodName),
 			proxy:   proxy,
-			comment: parseComments(p.comments, commentLine),
+			comment: parseMultilineComments(p.comments, firstLine, matches[0].line),
 			inputs: argumentList{
 				stream:    streamInput,
 				arguments: []*ArgumentNode{},
-- 
2.43.0


From b50706d9ba62e4332f311bfe43a880d3d826ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 22/40] fix: don't attach comments of RIDL errors, imports and
 meta fields to the definition below

---
 schema/ridl/error_parser.go      |  3 +++
 schema/ridl/import_parser.go     | 14 ++++++++++++--
 schema/ridl/struct_parser.go     |  5 ++++-
 schema/ridl/type_alias_parser.go |  5 ++++-
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/schema/ridl/error_parser.go b/schema/ridl/error_parser.go
index b96c782..c44ba5e 100644
--- a/schema/ridl/error_parser.go
+++ b/schema/ridl/error_parser.go
@@ -16,6 +16,9 @@ func parserStateError(p *parser) parserState {
 		return p.stateError(errUnexpectedToken)
 	}
 
+	// errors have no comments, don't leave them for the definition below
+	delete(p.comments, matches[0].line)
+
 	if err := expectNumber(matches[2], matches[2].val); err != nil {
 		return p.stateError(fmt.Errorf("expecting error code to be a number but got '%s'", matches[2].val))
 	}
diff --git a/schema/ridl/import_parser.go b/schema/ridl/import_parser.go
index 933250a..4436f08 100644
--- a/schema/ridl/import_parser.go
+++ b/schema/ridl/import_parser.go
@@ -12,10 +12,14 @@ func parserStateImportMembers(p *parser, in *ImportNode) parserState {
 	case tokenDash:
 
 		// - <value> [<# comment>][EOL]
-		if _, err := p.match(tokenDash, tokenWhitespace); err != nil {
+		matches, err := p.match(tokenDash, tokenWhitespace)
+		if err != nil {
 			return p.stateError(err)
 		}
 
+		// imports have no comments, don't leave them for the definition below
+		delete(p.comments, matches[0].line)
+
 		member, err := p.expectLiteralValue()
 		if err != nil {
 			return p.stateError(err)
@@ -48,10 +52,14 @@ func parserStateImportValue(p *parser) parserState {
 	case tokenDash:
 
 		// - <value> [<# comment>][EOL]
-		if _, err := p.match(tokenDash, tokenWhitespace); err != nil {
+		matches, err := p.match(tokenDash, tokenWhitespace)
+		if err != nil {
 			return p.stateError(err)
 		}
 
+		// imports have no comments, don't leave them for the definition below
+		delete(p.comments, matches[0].line)
+
 		path, err := p.expectPath()
 		if err != nil {
 			return p.stateError(err)
@@ -76,6 +84,8 @@ func parserStateImportValue(p *parser) parserState {
 }
 
 func parserStateImport(p *parser) parserState {
+	// imports have no comments, don't leave them for the definition below
+	delete(p.comments, p.cursor().line)
 
 	{
 		// import[<space>][<# comment>]<EOL>
diff --git a/schema/ridl/struct_parser.go b/schema/ridl/struct_parser.go
index cc9a9a8..b578df7 100644
--- a/schema/ridl/struct_parser.go
+++ b/schema/ridl/struct_parser.go
@@ -6,11 +6,14 @@ func parserStateStructFieldMetaDefinition(mn *StructNode) parserState {
 		field := mn.fields[len(mn.fields)-1]
 
 		// + <tag.name> = value
-		_, err := p.match(tokenPlusSign, tokenWhitespace)
+		matches, err := p.match(tokenPlusSign, tokenWhitespace)
 		if err != nil {
 			return p.stateError(err)
 		}
 
+		// meta fields have no comments, don't leave them for the definition below
+		delete(p.comments, matches[0].line)
+
 		// tag
 		left, err := p.expectMetadataKey()
 		if err != nil {
diff --git a/schema/ridl/type_alias_parser.go b/schema/ridl/type_alias_parser.go
index fe880d1..a5221f6 100644
--- a/schema/ridl/type_alias_parser.go
+++ b/schema/ridl/type_alias_parser.go
@@ -3,11 +3,14 @@ package ridl
 func parserStateTypeAliasMetaDefinition(ta *TypeAliasNode) parserState {
 	return func(p *parser) parserState {
 		// + <tag.name> = value
-		_, err := p.match(tokenPlusSign, tokenWhitespace)
+		matches, err := p.match(tokenPlusSign, tokenWhitespace)
 		if err != nil {
 			return p.stateError(err)
 		}
 
+		// meta fields have no comments, don't leave them for the definition below
+		delete(p.comments, matches[0].line)
+
 		left, err := p.expectMetadataKey()
 		if err != nil {
 			return p.stateError(err)
-- 
2.43.0


From 6a24585ca281664a5ce93ffc838a3388f49c2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 23/40] fix: don't attach a distant comment to a RIDL
 definition below an ignored '#!' comment

---
 schema/ridl/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 4ee19f2..6043e41 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -531,6 +531,7 @@ func composedValue(tokens []*token) (*token, error) {
 
 func parseComments(comments map[int]string, currentLine int) string {
 	iteration := 0
+	found := false
 	c := []string{}
 
 	if len(comments) == 0 {
@@ -544,6 +545,7 @@ func parseComments(comments map[int]string, currentLine int) string {
 				c = append(c, comment)
 			}
 			delete(comments, currentLine)
+			found = true
 			iteration = 0
 
 			if len(comments) == 0 {
@@ -552,7 +554,7 @@ func parseComments(comments map[int]string, currentLine int) string {
 		}
 
 		// if we already found a comment and there is one empty line we don't read more lines
-		if !ok && len(c) > 0 {
+		if !ok && found {
 			break
 		}
 
-- 
2.43.0


From 37f2bfdcc73d9fd0003c98e8565a67bdba2e3907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 24/40] fix: accept an escaped quote right after an escaped
 character in quoted RIDL values

---
 schema/ridl/parser.go | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 6043e41..6842da7 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -210,24 +210,12 @@ loop:
 		case tokenEOF:
 			return nil, errUnexpectedEOF
 
-		case tokenBackslash:
-			// push backlash
-			tokens = append(tokens, tok)
-
-			// push whatever else comes next
-			tok = p.cursor()
-			p.next()
-
-		case tokenWord:
-			// the word can end with a backslash that escapes a quote
-			if strings.HasSuffix(tok.val, `\`) && p.cursor().tt == tokenQuote {
-				tokens = append(tokens, tok)
-
-				tok = p.cursor()
-				p.next()
+		case tokenQuote:
+			// a backslash, alone or at the end of a word, escapes the quote
+			if len(tokens) > 0 && strings.HasSuffix(tokens[len(tokens)-1].val, `\`) {
+				break
 			}
 
-		case tokenQuote:
 			// end of string
 			break loop
 		}
-- 
2.43.0


From 092f2fc671ae165907fe9912135d4a99cb28a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 25/40] fix: resolve the base type of enums in JSON schemas

---
 schema/type.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schema/type.go b/schema/type.go
index 728258e..354754a 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -145,6 +145,12 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		if !isValidVarType(fieldType.String(), validCoreTypes) {
 			return fmt.Errorf("schema error: enum '%s' field '%s' is invalid. must be an integer type", t.Name, fieldType.String())
 		}
+
+		// resolve the type
+		err := fieldType.Parse(schema)
+		if err != nil {
+			return err
+		}
 	}
 
 	// For structs only
-- 
2.43.0


From 0e5c81e9c3411831c620e8044f7c51bf9e2e9bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 26/40] fix: check the case of the first letter of names, not
 of its first byte

---
 schema/type.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/schema/type.go b/schema/type.go
index 354754a..73c0905 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const (
@@ -185,11 +186,6 @@ func (t *Type) RequiredFields() []*TypeField {
 }
 
 func startsWithUpper(s string) bool {
-	if len(s) == 0 {
-		return false
-	}
-	if !unicode.IsUpper(rune(s[0])) {
-		return false
-	}
-	return true
+	r, _ := utf8.DecodeRuneInString(s)
+	return unicode.IsUpper(r)
 }
-- 
2.43.0


From 157e74e61f239359f3fd02f8985ae964043bb07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 27/40] fix: keep the enum behind an alias used as map key when
 tree-shaking

---
 schema/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/schema.go b/schema/schema.go
index 6bd6bde..df230d9 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -233,6 +233,10 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 			if t.Name != "" {
 				mark[t.Name] = true
 			}
+			// A map key can be an alias of an enum.
+			if t.Kind == TypeKind_Alias {
+				walkVarType(t.Type, mark)
+			}
 		}
 
 		// Alias type: mark and traverse its underlying type
-- 
2.43.0


From 8104d7bd96cc4df395a3985ad047f5afb11c3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 28/40] fix: report the right line for errors at the end of a
 file and for unclosed strings

---
 schema/ridl/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 6842da7..e24b836 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -159,7 +159,12 @@ func (p *parser) expectOptionalCommentOrEOL() error {
 
 func (p *parser) stateError(err error) parserState {
 	cur := p.cursor()
-	err = fmt.Errorf("%d:%d: error near %q: %v", cur.line, cur.col, cur.val, err)
+	line, col := cur.line, cur.col
+	if cur == eofToken && p.length > 0 {
+		// the end of the file is right after the last token
+		line, col = p.tokens[p.length-1].line, p.tokens[p.length-1].col
+	}
+	err = fmt.Errorf("%d:%d: error near %q: %v", line, col, cur.val, err)
 	p.emit(err)
 	return nil
 }
@@ -205,6 +210,8 @@ loop:
 		switch tok.tt {
 
 		case tokenNewLine:
+			// report the line of the string, not the next one
+			p.rewind(1)
 			return nil, errUnexpectedEOL
 
 		case tokenEOF:
-- 
2.43.0


From 4eef002be585d382e23adbf541a8d5003f50fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 29/40] fix: undo the last change of parseComments, it had no
 effect

This reverts commit 6a24585.
---
 schema/ridl/parser.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index e24b836..81c0ea7 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -526,7 +526,6 @@ func composedValue(tokens []*token) (*token, error) {
 
 func parseComments(comments map[int]string, currentLine int) string {
 	iteration := 0
-	found := false
 	c := []string{}
 
 	if len(comments) == 0 {
@@ -540,7 +539,6 @@ func parseComments(comments map[int]string, currentLine int) string {
 				c = append(c, comment)
 			}
 			delete(comments, currentLine)
-			found = true
 			iteration = 0
 
 			if len(comments) == 0 {
@@ -549,7 +547,7 @@ func parseComments(comments map[int]string, currentLine int) string {
 		}
 
 		// if we already found a comment and there is one empty line we don't read more lines
-		if !ok && found {
+		if !ok && len(c) > 0 {
 			break
 		}
 
-- 
2.43.0


From 58d88fc04155ba81848ba60145e647970d1fbf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 30/40] fix: keep a non-ASCII first letter in
 firstLetterToLower and firstLetterToUpper

---
 gen/funcmap.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gen/funcmap.go b/gen/funcmap.go
index 22f8e38..b7a9155 100644
--- a/gen/funcmap.go
+++ b/gen/funcmap.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/Masterminds/sprig/v3"
 	"github.com/davecgh/go-spew/spew"
@@ -68,13 +69,15 @@ func templateFuncMap(opts map[string]interface{}) map[string]interface{} {
 			if input == "" {
 				return ""
 			}
-			return strings.ToLower(input[:1]) + input[1:]
+			_, n := utf8.DecodeRuneInString(input)
+			return strings.ToLower(input[:n]) + input[n:]
 		}),
 		"firstLetterToUpper": applyStringFunction("firstLetterToUpper", func(input string) string { // v0.7.0
 			if input == "" {
 				return ""
 			}
-			return strings.ToUpper(input[:1]) + input[1:]
+			_, n := utf8.DecodeRuneInString(input)
+			return strings.ToUpper(input[:n]) + input[n:]
 		}),
 		"firstWordToLower": applyStringFunction("firstWordToLower", func(input string) string { // v0.29.0
 			if input == "" {
-- 
2.43.0


From 85e4a4d4fa6b4969d27dcbcaacd3745a68f6142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 31/40] fix: append in templates doesn't overwrite elements of
 other arrays

---
 gen/funcmap_generic.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gen/funcmap_generic.go b/gen/funcmap_generic.go
index c03a4d3..cbec71f 100644
--- a/gen/funcmap_generic.go
+++ b/gen/funcmap_generic.go
@@ -3,6 +3,7 @@ package gen
 import (
 	"fmt"
 	"reflect"
+	"slices"
 	"sort"
 )
 
@@ -13,7 +14,8 @@ func array(elems ...interface{}) []interface{} {
 
 // Appends new elements to the existing slice.
 func appendFn(slice []interface{}, elems ...interface{}) []interface{} {
-	return append(slice, elems...)
+	// Don't share memory with the given slice, it may be appended to again.
+	return append(slices.Clip(slice), elems...)
 }
 
 // Returns first element from given array.
-- 
2.43.0


From 4c905d21515ca1f419697effda0eb4a8c7678825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 32/40] fix: deterministic text of dictionaries in join and
 sort

---
 gen/funcmap_string.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gen/funcmap_string.go b/gen/funcmap_string.go
index 3e5d65a..6cafd7a 100644
--- a/gen/funcmap_string.go
+++ b/gen/funcmap_string.go
@@ -2,6 +2,8 @@ package gen
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/webrpc/webrpc/schema"
@@ -24,8 +26,8 @@ func toString(v interface{}) string {
 		return t
 	case map[string]interface{}:
 		var b strings.Builder
-		for k, v := range t {
-			b.WriteString(fmt.Sprintf("%v=%v\n", k, v))
+		for _, k := range slices.Sorted(maps.Keys(t)) {
+			b.WriteString(fmt.Sprintf("%v=%v\n", k, t[k]))
 		}
 		return b.String()
 	default:
-- 
2.43.0


From 009a03383e58363504ba78d4f0265db77a181c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 33/40] fix: print the help of the target rather than an error
 without cause

---
 cmd/webrpc-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 8154bfe..ce9889e 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -267,7 +267,7 @@ func setTargetFlagsUsage(templateOpts map[string]interface{}) {
 		if *targetFlag != "" {
 			fmt.Fprintf(os.Stderr, "\nTarget generator usage:\n")
 			templateHelp, err := gen.Generate(&schema.WebRPCSchema{}, *targetFlag, &gen.Config{TemplateOptions: templateOpts})
-			if err != nil {
+			if err == nil {
 				fmt.Fprintln(os.Stderr, templateHelp.Code)
 			} else {
 				fmt.Fprintf(os.Stderr, "failed to render -help: %v\n", err)
-- 
2.43.0


From 5fc63c8ff8d92af6371c31a1456fa45e866520dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 34/40] fix: use the template cache if remote templates can't
 be fetched completely

---
 gen/template_source.go | 75 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 74 insertions(+), 1 deletion(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 5dd7689..055db7f 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -4,11 +4,13 @@ import (
 	"context"
 	"fmt"
 	"hash/fnv"
+	"io"
 	"net/http"
 	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
+	"sync"
 	"text/template"
 	"time"
 
@@ -104,7 +106,7 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 	if !cacheAvailable || s.config.RefreshCache || cacheAge > templateCacheTTL {
 		s.TmplVersion = s.target
 		// fetch from remote git
-		sourceFS, err = gitfs.New(context.Background(), s.target, gitfs.OptPrefetch(true), gitfs.OptGlob("*.go.tmpl"))
+		sourceFS, err = fetchTemplates(s.target)
 		if err != nil {
 			s.CacheRefreshErr = err
 			// load from cache, if available
@@ -141,6 +143,77 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 	return tmpl, nil
 }
 
+// fetchTemplates fetches the templates from remote git. gitfs leaves out files
+// that it fails to download, or returns no files at all, without an error.
+func fetchTemplates(target string) (http.FileSystem, error) {
+	transport := &fetchTransport{}
+	client := &http.Client{Transport: transport}
+
+	sourceFS, err := gitfs.New(context.Background(), target, gitfs.OptClient(client), gitfs.OptPrefetch(true), gitfs.OptGlob("*.go.tmpl"))
+	if err != nil {
+		return nil, err
+	}
+	if err := transport.firstError(); err != nil {
+		return nil, err
+	}
+
+	filenames, err := vfspath.Glob(sourceFS, "/*.go.tmpl")
+	if err != nil {
+		return nil, err
+	}
+	if len(filenames) == 0 {
+		return nil, fmt.Errorf("no template files were found in target %s", target)
+	}
+	return sourceFS, nil
+}
+
+// fetchTransport remembers the first request that failed.
+type fetchTransport struct {
+	mu  sync.Mutex
+	err error
+}
+
+func (t *fetchTransport) firstError() error {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	return t.err
+}
+
+func (t *fetchTransport) fail(err error) {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	if t.err == nil {
+		t.err = err
+	}
+}
+
+func (t *fetchTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	resp, err := http.DefaultTransport.RoundTrip(req)
+	if err != nil {
+		t.fail(err)
+		return nil, err
+	}
+	if resp.StatusCode >= 400 {
+		t.fail(fmt.Errorf("GET %s: %s", req.URL, resp.Status))
+	}
+	resp.Body = &fetchBody{ReadCloser: resp.Body, transport: t}
+	return resp, nil
+}
+
+// fetchBody reports responses that are cut off.
+type fetchBody struct {
+	io.ReadCloser
+	transport *fetchTransport
+}
+
+func (b *fetchBody) Read(p []byte) (int, error) {
+	n, err := b.ReadCloser.Read(p)
+	if err != nil && err != io.EOF {
+		b.transport.fail(err)
+	}
+	return n, err
+}
+
 func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) error {
 	// create empty cache directory
 	if _, err := os.Stat(cacheDir); os.IsExist(err) {
-- 
2.43.0


From f09e84752d67220f751b59818c9a16e242f0ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 35/40] fix: drop templates from the cache that the target
 doesn't have any more

---
 gen/template_source.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 055db7f..00dbe1d 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"os"
 	"path/filepath"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -215,13 +216,6 @@ func (b *fetchBody) Read(p []byte) (int, error) {
 }
 
 func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) error {
-	// create empty cache directory
-	if _, err := os.Stat(cacheDir); os.IsExist(err) {
-		if err := os.RemoveAll(cacheDir); err != nil {
-			return err
-		}
-	}
-
 	filenames, err := vfspath.Glob(remoteFS, "/*.go.tmpl")
 	if err != nil {
 		return err
@@ -235,6 +229,19 @@ func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem,
 		return fmt.Errorf("unable to create directory for template cache at %s: %w", cacheDir, err)
 	}
 
+	// remove cached templates that the target doesn't have any more
+	cached, err := os.ReadDir(cacheDir)
+	if err != nil {
+		return err
+	}
+	for _, entry := range cached {
+		if name := entry.Name(); strings.HasSuffix(name, ".go.tmpl") && !slices.Contains(filenames, "/"+name) {
+			if err := os.Remove(filepath.Join(cacheDir, name)); err != nil {
+				return err
+			}
+		}
+	}
+
 	for _, filename := range filenames {
 		data, err := vfsutil.ReadFile(remoteFS, filename)
 		if err != nil {
-- 
2.43.0


From 01b28b11e2d9c4bbd90c462ebd69189086789889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 36/40] fix: don't use the template cache of another target
 with the same hash

---
 gen/template_source.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gen/template_source.go b/gen/template_source.go
index 00dbe1d..059dbcb 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -292,6 +292,12 @@ func (s *TemplateSource) openCacheDir() (bool, string, http.FileSystem, time.Dur
 		}
 	}
 
+	// the directory name is a short hash, make sure that these are the templates of our target
+	info, _ := vfsutil.ReadFile(cacheFS, templateCacheInfoFilename)
+	if strings.TrimSpace(string(info)) != strings.TrimSpace(s.target) {
+		available = false
+	}
+
 	return available, cacheDir, cacheFS, time.Since(time.Unix(ts, 0))
 }
 
-- 
2.43.0


From 8721ef2a4443dfc946ee0f2ef46eb2d4fd715497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 37/40] fix: change the case of a first letter outside ASCII as
 a whole

---
 schema/var_name.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schema/var_name.go b/schema/var_name.go
index 7fce28e..6dc38f5 100644
--- a/schema/var_name.go
+++ b/schema/var_name.go
@@ -2,6 +2,7 @@ package schema
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 type VarName string
@@ -13,7 +14,8 @@ func (v VarName) TitleDowncase() string {
 		return ""
 	}
 	s := string(v)
-	return strings.ToLower(s[0:1]) + s[1:]
+	_, n := utf8.DecodeRuneInString(s)
+	return strings.ToLower(s[:n]) + s[n:]
 }
 
 // TitleUpcase will upcase the first letter of a string,
@@ -23,5 +25,6 @@ func (v VarName) TitleUpcase() string {
 		return ""
 	}
 	s := string(v)
-	return strings.ToUpper(s[0:1]) + s[1:]
+	_, n := utf8.DecodeRuneInString(s)
+	return strings.ToUpper(s[:n]) + s[n:]
 }
-- 
2.43.0


From 08018ef71886be6dd1c5055e566d4d63748859a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:04 +0000
Subject: [PATCH 38/40] fix: a template cache that couldn't be written
 completely was used with templates of two versions

---
 gen/template_source.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gen/template_source.go b/gen/template_source.go
index 059dbcb..0863eea 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -229,6 +229,12 @@ func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem,
 		return fmt.Errorf("unable to create directory for template cache at %s: %w", cacheDir, err)
 	}
 
+	// the cache isn't available until all of its files are written
+	err = os.Remove(filepath.Join(cacheDir, templateCacheTimestampFilename))
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+
 	// remove cached templates that the target doesn't have any more
 	cached, err := os.ReadDir(cacheDir)
 	if err != nil {
-- 
2.43.0


From c3db12dd0e3457801589f1c7b898eb5eb746433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:14 +0000
Subject: [PATCH 39/40] fix: don't remember an import that failed to parse

A second call of Parse, ie. after a transient read error, skipped the import
and reported a schema without its definitions.
---
 schema/ridl/ridl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index 10374d7..b193722 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -171,9 +171,11 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 			if err != nil {
 				return nil, err
 			}
-			if p.cache[importPath], err = parser.Parse(); err != nil {
+			imported, err := parser.Parse()
+			if err != nil {
 				return nil, newImportError(parser, err)
 			}
+			p.cache[importPath] = imported
 		}
 
 		members := []string{}
-- 
2.43.0


From fde84dca1d779d70f64bedd432a662a32fb0a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:16 +0000
Subject: [PATCH 40/40] fix: report templates that were fetched but couldn't be
 cached

---
 cmd/webrpc-gen/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index ce9889e..d1b87aa 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -153,6 +153,8 @@ func main() {
 			if genOutput.CacheRefreshErr != nil {
 				cacheAge += fmt.Sprintf(" (failed to refresh: %v)", genOutput.CacheRefreshErr)
 			}
+		} else if genOutput.CacheRefreshErr != nil {
+			cacheAge = fmt.Sprintf("now (failed to cache: %v)", genOutput.CacheRefreshErr)
 		}
 		fmt.Println(" target cache age   :", cacheAge)
 	}
-- 
2.43.0

