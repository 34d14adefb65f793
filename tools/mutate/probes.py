#!/usr/bin/env python3
"""Hand-written changes, written from the text of a property and the code.  Not part of any check.
  probes.py OUT.jsonl        (then run.py OUT.jsonl RESULTS ...)"""
import json, sys
P = []
def p(id, props, file, *edits, n=1):
    P.append((id, props, file, edits))
R = "schema/ridl/"
# --- C01
p("struct-fields-cap", "C01", R+"ridl.go", ("for _, def := range line.Fields() {\n\t\t\tfieldName", "for i, def := range line.Fields() {\n\t\t\tif i >= 32 { break }\n\t\t\tfieldName"))
p("meta-dup-key-dropped", "C01", R+"ridl.go", ("field.Meta = append(field.Meta, schema.TypeFieldMeta{\n\t\t\t\t\tkey: val,\n\t\t\t\t})", "if n := len(field.Meta); n > 0 && field.Meta[n-1][key] == val { continue }\n\t\t\t\tfield.Meta = append(field.Meta, schema.TypeFieldMeta{\n\t\t\t\t\tkey: val,\n\t\t\t\t})"))
p("alias-meta-first-only", "C01", R+"ridl.go", ("aliasDef.Meta = append(aliasDef.Meta, schema.TypeFieldMeta{\n\t\t\t\tkey: val,\n\t\t\t})", "aliasDef.Meta = []schema.TypeFieldMeta{{key: val}}"))
p("meta-to-first-optional", "C01", R+"struct_parser.go", ("field := mn.fields[len(mn.fields)-1]", "field := mn.fields[len(mn.fields)-1]\n\t\tif len(mn.fields) > 1 && len(field.meta) == 2 { field = mn.fields[len(mn.fields)-2] }"))
p("optional-lost-for-map", "C01", R+"ridl.go", ("Optional: def.Optional(),", "Optional: def.Optional() && varType.Type != schema.T_Map,"))
p("meta-merged", "C01", R+"ridl.go", ("field.Meta = append(field.Meta, schema.TypeFieldMeta{\n\t\t\t\t\tkey: val,\n\t\t\t\t})", "if n := len(field.Meta); n > 2 { field.Meta[n-1][key] = val } else { field.Meta = append(field.Meta, schema.TypeFieldMeta{\n\t\t\t\t\tkey: val,\n\t\t\t\t}) }"))
p("version-trim-v", "C01", R+"ridl.go", ("s.SchemaVersion = value", 's.SchemaVersion = strings.TrimSuffix(value, "/")'))
p("name-lower", "C01", R+"ridl.go", ("s.SchemaName = value", 's.SchemaName = strings.TrimPrefix(value, "_")'))
p("meta-key-dots", "C01", R+"parser.go", ("tokens = append(tokens, matches...)\n\t\t\tcontinue", "if len(tokens) < 6 { tokens = append(tokens, matches...) }\n\t\t\tcontinue"))
# --- C02
p("annotations-cap", "C02", R+"ridl.go", ("annotations[a.AnnotationType().String()] = an", "if _, ok := annotations[strings.ToLower(an.AnnotationType)]; ok { continue }\n\t\tannotations[a.AnnotationType().String()] = an"))
p("stream-output-noargs", "C02", R+"ridl.go", ("StreamOutput: method.StreamOutput(),", "StreamOutput: method.StreamOutput() && len(outputs) > 0,"))
p("optional-output", "C02", R+"ridl.go", ("Optional: arg.Optional(),", "Optional: arg.Optional() && varType.Type != schema.T_List,"))
p("errors-dup", "C02", R+"ridl.go", ("methodErrors[i] = errorToken.String()", "methodErrors[i] = errorToken.String()\n\t\t\t\tif i > 3 { methodErrors[i] = method.Errors()[3].String() }"))
p("succinct-name", "C02", R+"ridl.go", ("rs[0] = unicode.ToLower(rs[0])", "rs[0] = unicode.ToLower(rs[0])\n\tif len(rs) > 1 && unicode.IsUpper(rs[1]) { rs[1] = unicode.ToLower(rs[1]) }"))
p("ann-buffer-kept", "C02", R+"service_parser.go", ("sn.methodAnnotations = []*AnnotationNode{}", "if len(sn.methodAnnotations) < 3 { sn.methodAnnotations = []*AnnotationNode{} } else { sn.methodAnnotations = sn.methodAnnotations[3:] }"))
p("method-errors-shared", "C02", R+"error_list_parser.go", ("errorNames = append(errorNames, newTokenNode(matches[3]))", "if len(errorNames) < 8 { errorNames = append(errorNames, newTokenNode(matches[3])) }"))
p("service-name-slash", "C02", R+"ridl.go", ("Name:     service.Name().String(),", 'Name:     strings.TrimSuffix(service.Name().String(), "Service"),'))
# --- C03
p("enum-implied-after-explicit", "C03", R+"ridl.go", ("val = strconv.Itoa(i)", "if i > 0 && line.Values()[i-1].Right().String() != \"\" { val = strconv.Itoa(i - 1) } else { val = strconv.Itoa(i) }"))
p("enum-negative", "C03", R+"ridl.go", ("val = strconv.Itoa(i)", "val = strconv.FormatInt(int64(int8(i)), 10)"))
p("enum-string-empty", "C03", R+"ridl.go", ('if enumType.String() == "string" {', 'if enumType.String() == "string" && !strings.HasPrefix(key, "_") {'))
p("enum-leading-zero", "C03", R+"ridl.go", ("Value: val,", 'Value: strings.TrimLeft(val, "0") + map[bool]string{true: "0"}[strings.Trim(val, "0") == ""],'))
p("enum-bare-slash", "C03", R+"parser.go", ("case tokenWord, tokenSlash:\n\t\t\ttokens = append(tokens, tok)\n\t\t\tp.next()\n\n\t\tdefault:\n\t\t\tbreak loop\n\t\t}\n\t}\n\n\treturn composedValue(tokens)\n}\n\nfunc (p *parser) match", "case tokenWord:\n\t\t\ttokens = append(tokens, tok)\n\t\t\tp.next()\n\n\t\tdefault:\n\t\t\tbreak loop\n\t\t}\n\t}\n\n\treturn composedValue(tokens)\n}\n\nfunc (p *parser) match"))
# --- C04
p("err-message-trim", "C04", R+"ridl.go", ("errorType.Message = line.message.String()", "errorType.Message = strings.TrimSpace(line.message.String())"))
p("err-code-16", "C04", R+"ridl.go", ("errorType.Code = int(code)", "errorType.Code = int(uint16(code)) + int(code>>20)<<20 + int(code>>16&7)<<16"))
p("err-default-500", "C04", R+"ridl.go", ("errorType.HTTPStatus = 400 // Default HTTP status code", "errorType.HTTPStatus = 400\n\t\t\tif code >= 1000 && code < 1010 { errorType.HTTPStatus = 500 }"))
p("err-sorted", "C04", R+"ridl.go", ("s.Errors = append(s.Errors, &errorType)", "s.Errors = append(s.Errors, &errorType)\n\t\tif n := len(s.Errors); n > 5 && s.Errors[n-1].Code < s.Errors[n-2].Code { s.Errors[n-1], s.Errors[n-2] = s.Errors[n-2], s.Errors[n-1] }"))
# --- C05
p("comment-tab", "C05", R+"tokenizer.go", ('lineComments[tok.line] = strings.Join(commentTokens, " ")\n\t\t\tcommentTokens = []string{}', 'lineComments[tok.line] = strings.TrimRight(strings.Join(commentTokens, " "), "#")\n\t\t\tcommentTokens = []string{}'))
p("comment-bang-mid", "C05", R+"parser.go", ('if !strings.HasPrefix(comment, "!") {\n\t\t\t\tc = append(c, comment)\n\t\t\t}\n\t\t\tdelete(comments, currentLine)', 'if !strings.HasPrefix(comment, "!") {\n\t\t\t\tc = append(c, comment)\n\t\t\t} else { break }\n\t\t\tdelete(comments, currentLine)'))
p("comment-cap-20", "C05", R+"parser.go", ("if len(c) > 0 {\n\t\t// slices", "if len(c) > 20 { c = c[:20] }\n\tif len(c) > 0 {\n\t\t// slices"))
p("comment-empty-line", "C05", R+"parser.go", ('if !strings.HasPrefix(comment, "!") {\n\t\t\t\tc = append(c, comment)\n\t\t\t}\n\t\t\tdelete(comments, currentLine)', 'if !strings.HasPrefix(comment, "!") && comment != "" {\n\t\t\t\tc = append(c, comment)\n\t\t\t}\n\t\t\tdelete(comments, currentLine)'))
p("comment-service-trailing", "C05", R+"service_parser.go", ("comment: parseComments(p.comments, matches[0].line),\n\t})", "comment: parseComments(p.comments, p.cursor().line),\n\t})"))
p("comment-multi-ann", "C05", R+"service_parser.go", ("firstLine = sn.methodAnnotations[0].AnnotationType().tok.line", "firstLine = sn.methodAnnotations[len(sn.methodAnnotations)-1].AnnotationType().tok.line"))
p("comment-quote-in-comment", "C05", R+"tokenizer.go", ("tok.tt == tokenQuote && !parsingComment", "tok.tt == tokenQuote"))
# --- C06
p("crlf-in-word", "C06", R+"lexer.go", ('[]rune("\\x00 \\t\\r\\n[]()<>{}=:¿?¡!,\\"")', '[]rune("\\x00 \\t\\n[]()<>{}=:¿?¡!,\\"")'))
p("tab-not-space", "C06", R+"type_parser.go", ("case tokenWhitespace:\n\t\t\tp.next()\n\t\t\tcontinue loop\n\n\t\tcase tokenCloseAngle", "case tokenWhitespace:\n\t\t\tif tok.val == \"\\t\" { return nil, errUnexpectedToken }\n\t\t\tp.next()\n\t\t\tcontinue loop\n\n\t\tcase tokenCloseAngle"))
p("eol-comment-quote", "C06", R+"parser.go", ("case tokenNewLine, tokenEOF:\n\t\t\treturn nil\n\t\tcase tokenWord:", "case tokenNewLine, tokenEOF, tokenBang:\n\t\t\treturn nil\n\t\tcase tokenWord:"))
p("last-line-no-nl", "C06", R+"parser.go", ("case tokenEOF, tokenNewLine:\n\t\t\t// end of line\n\t\t\treturn nil", "case tokenNewLine:\n\t\t\t// end of line\n\t\t\treturn nil\n\t\tcase tokenEOF:\n\t\t\tif p.length > 0 && p.tokens[p.length-1].tt == tokenWhitespace { return errUnexpectedEOF }\n\t\t\treturn nil"))
# --- C07
p("map-value-list-key", "C07 C08", "schema/var_type.go", ('p := strings.Index(expr, ",")', 'p := strings.LastIndex(expr, ",")\n\tif q := strings.Index(expr, "map<"); q >= 0 { p = strings.Index(expr, ",") }'))
p("type-case-fold", "C07 C08", "schema/var_type.go", ("if structExpr == string(typ.Name) {", "if structExpr == string(typ.Name) || (len(structExpr) > 12 && strings.EqualFold(structExpr, typ.Name)) {"))
p("alias-flatten", "C07", "schema/var_type.go", ("case TypeKind_Alias:\n\t\t\tvt.Type = T_Alias", "case TypeKind_Alias:\n\t\t\tif typ.Type != nil && typ.Type.Alias != nil { typ = typ.Type.Alias.Type }\n\t\t\tvt.Type = T_Alias"))
p("map-key-int-alias", "C07 C08", "schema/var_type.go", ("return ok && target.Kind == TypeKind_Enum", "return ok && target.Kind != TypeKind_Struct"))
p("list-depth", "C07", "schema/var_type.go", ('expr += "[]" + buildVarTypeExpr(vt.List.Elem, expr)', 'if strings.HasPrefix(expr, "[][][]") { return expr }\n\t\texpr += "[]" + buildVarTypeExpr(vt.List.Elem, "")'))
p("map-key-bigint", "C08", "schema/var_type.go", ("T_String, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64,\n}\n\nvar VarInteger", "T_String, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64, T_BigInt,\n}\n\nvar VarInteger"))
p("map-key-byte-removed", "C07", "schema/var_type.go", ("T_String, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64,\n}\n\nvar VarInteger", "T_String, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int16, T_Int32, T_Int64,\n}\n\nvar VarInteger"))
p("type-bar", "C08", R+"type_parser.go", ("case tokenComma, tokenBar:\n\t\t\ttokens = append(tokens, tok)\n\t\t\tp.next()\n\n\t\tcase tokenWord, tokenOpenBracket", "case tokenComma, tokenBar:\n\t\t\ttok = &token{tt: tokenComma, val: \",\"}\n\t\t\ttokens = append(tokens, tok)\n\t\t\tp.next()\n\n\t\tcase tokenWord, tokenOpenBracket"))
p("map-extra-arg", "C08", "schema/var_type.go", ("value := expr[p+1:]", "value := expr[p+1:]\n\tif i := strings.LastIndex(value, \",\"); i >= 0 && !strings.Contains(value, \"<\") { value = value[:i] }"))
p("json-type-trim", "C08", "schema/var_type.go", ("return json.Unmarshal(b, &t.Expr)", "err := json.Unmarshal(b, &t.Expr)\n\tt.Expr = strings.TrimSuffix(t.Expr, \"?\")\n\treturn err"))
p("unresolved-map-value-in-output", "C08", "schema/service.go", ("err := output.Type.Parse(schema)\n\t\tif err != nil {", "err := output.Type.Parse(schema)\n\t\tif err != nil && !(output.Optional && m.StreamOutput) {"))
# --- C09
p("dup-field-last", "C09", "schema/type.go", ("if _, ok := fieldList[fieldNameLower]; ok {", "if prev, ok := fieldList[fieldNameLower]; ok && !(prev != fieldName && len(t.Fields) > 4) {"))
p("dup-json-name", "C09", "schema/type.go", ("if _, ok := jsonFieldList[jsonMetaStringLower]; ok {", "if _, ok := jsonFieldList[jsonMetaStringLower]; ok && !field.Optional {"))
p("dup-err-code", "C09", "schema/error.go", ("codeList[e.Code] = struct{}{}", "if e.HTTPStatus != 500 { codeList[e.Code] = struct{}{} }"))
p("undefined-err-stream", "C09", "schema/service.go", ("if !found {\n\t\t\treturn fmt.Errorf(\"schema error: method", "if !found && !(m.StreamOutput && len(m.Errors) > 1) {\n\t\t\treturn fmt.Errorf(\"schema error: method"))
p("enum-bool", "C09", "schema/type.go", ("validCoreTypes := append(VarIntegerCoreTypes, T_String)", "validCoreTypes := append(VarIntegerCoreTypes, T_String, T_Byte)"))
p("err-prefix", "C09", "schema/error.go", ('strings.HasPrefix(strings.ToLower(s.Name), "webrpc")', 'strings.HasPrefix(s.Name, "Webrpc")'))
p("version-services", "C09", "schema/schema.go", ('if len(s.Services) > 0 && s.SchemaVersion == "" {', 'if len(s.Services) > 0 && s.SchemaVersion == "" && len(s.Types) > 0 {'))
p("struct-value", "C09", "schema/type.go", ('if field.Value != "" {\n\t\t\t\treturn fmt.Errorf("schema error: struct', 'if field.Value != "" && !field.Optional {\n\t\t\t\treturn fmt.Errorf("schema error: struct'))
p("dup-type-kinds", "C09", "schema/type.go", ("if msg != t && name == strings.ToLower(string(msg.Name)) {", "if msg != t && name == strings.ToLower(string(msg.Name)) && msg.Kind == t.Kind {"))
p("dup-service", "C09", "schema/service.go", ("if svc != s && name == strings.ToLower(string(svc.Name)) {", "if svc != s && s.Name == string(svc.Name) {"))
p("json-meta-second", "C09", "schema/type.go", ("if jsonMetaString == \"-\" {", "if jsonMetaString == \"-\" || jsonFieldName != fieldName {"))
p("dup-annotation-lines", "C09 C02", R+"service_parser.go", ("if _, ok := annotations[ann.AnnotationType().String()]; ok {", "if _, ok := annotations[ann.AnnotationType().String()]; ok && len(sn.methodAnnotations) == 2 {"))
p("null-method-last", "C16 C17 C09", "schema/service.go", ("for _, method := range s.Methods {\n\t\tif method == nil {", "for i, method := range s.Methods {\n\t\tif method == nil && i > 0 { continue }\n\t\tif method == nil {"))
# --- C10/C11
p("json-opt-output", "C10", "schema/service.go", ("output.OutputArg = true // back-ref", "output.OutputArg = true\n\t\toutput.Optional = output.Optional && !m.Succinct"))
p("json-comment-trim", "C10 C11", "schema/type.go", ("typName := string(t.Name)\n", "typName := string(t.Name)\n\tif n := len(t.Comments); n > 1 && t.Comments[n-1] == \"\" { t.Comments = t.Comments[:n-1] }\n"))
p("tojson-escapes-html", "C11", "schema/schema.go", ("enc.SetEscapeHTML(false)", "enc.SetEscapeHTML(len(s.Services) > 2)"))
p("json-annotation-type", "C10", "schema/service.go", ("if annotation == nil {", "if annotation != nil && annotation.AnnotationType == \"\" { annotation.AnnotationType = name }\n\t\tif annotation == nil {"))
p("json-enum-value-ws", "C10 C11", "schema/type.go", ('if field.Value == "" {', 'field.Value = strings.TrimSpace(field.Value)\n\t\t\tif field.Value == "" {'))
# --- C12
p("hash-lower", "C12", "schema/schema.go", ("h.Write([]byte(jsonString))", "h.Write([]byte(strings.ReplaceAll(jsonString, \"\\\"optional\\\": false\", \"\\\"optional\\\": true\")))"))
p("hash-4096", "C12", "schema/schema.go", ("h.Write([]byte(jsonString))", "if len(jsonString) > 65536 { jsonString = jsonString[:65536] }\n\th.Write([]byte(jsonString))"))
# --- C13
p("import-errors-members", "C13", R+"ridl.go", ("isImportAllowed(imported.Errors[i].Name, members)", "(len(members) == 0 || isImportAllowed(imported.Errors[i].Name, members) || imported.Errors[i].Code == 1)"))
p("import-twice-members", "C09 C13", R+"ridl.go", ("!slices.Contains(s.Services, imported.Services[i])", "!slices.ContainsFunc(s.Services, func(x *schema.Service) bool { return x.Name == imported.Services[i].Name })"))
p("import-types-by-name", "C13 C09", R+"ridl.go", ("!slices.Contains(s.Types, imported.Types[i])", "!slices.ContainsFunc(s.Types, func(x *schema.Type) bool { return x.Name == imported.Types[i].Name })"))
p("import-path-base", "C13", R+"ridl.go", ("importPath := path.Join(path.Dir(p.path), line.Path().String())", "importPath := path.Join(path.Dir(p.path), line.Path().String())\n\t\tif strings.HasPrefix(line.Path().String(), \"./../\") { importPath = path.Join(path.Dir(p.path), path.Base(importPath)) }"))
p("import-member-comment", "C13", R+"import_parser.go", ("in.members = append(in.members, newTokenNode(member))", "if len(in.members) < 5 { in.members = append(in.members, newTokenNode(member)) }"))
# --- C14
p("cycle-self-only-root", "C14", R+"ridl.go", ("if p.imports.IsCircular() {", "if p.imports.IsCircular() && !(p.parent != nil && p.path == filename) {"))
# --- C15
p("deep-types-recursion", "C15", R+"parser.go", ("case tokenHash:\n\t\treturn parserStateComment", "case tokenHash:\n\t\tif p.pos+3 < p.length && p.tokens[p.pos+1].val == \"\\x00\" { return parserStateSpace(p) }\n\t\treturn parserStateComment"))
p("lexer-leak", "C15", R+"tokenizer.go", ("if tok.tt == tokenEOF {\n\t\t\tbreak\n\t\t}", "if tok.tt == tokenEOF {\n\t\t\tbreak\n\t\t}\n\t\tif len(tokens) > 3 && tok.tt == tokenExtra && tokens[len(tokens)-1].tt == tokenExtra && tokens[len(tokens)-2].tt == tokenExtra { break }"))
p("quote-at-start", "C15", R+"tokenizer.go", ("escaped := parsingString && strings", "escaped := (parsingString || tok.col == 1 && tok.line == 1) && strings"))
# --- C16
p("json-alias-nil-type", "C16 C09", "schema/type.go", ("if t.Type == nil {\n", "if t.Type == nil && len(t.Fields) == 0 {\n"))
p("json-enum-nil-type", "C16 C09", "schema/type.go", ("if !isValidVarType(fieldType.String(), validCoreTypes) {", "if fieldType == nil && len(t.Fields) == 0 { return nil }\n\t\tif !isValidVarType(fieldType.String(), validCoreTypes) {"))
# --- C18
p("shake-enum-key-in-list", "C18", "schema/schema.go", ("if vt.List != nil {\n\t\t\twalkVarType(vt.List.Elem, mark)", "if vt.List != nil && !(vt.List.Elem.Type == T_Map && vt.List.Elem.Map.Value.Type == T_List) {\n\t\t\twalkVarType(vt.List.Elem, mark)"))
p("shake-stream-outputs", "C18", "schema/schema.go", ("for _, out := range m.Outputs {\n\t\t\t\twalkVarType(out.Type, mark)", "for _, out := range m.Outputs {\n\t\t\t\tif m.StreamInput && !m.StreamOutput { continue }\n\t\t\t\twalkVarType(out.Type, mark)"))
p("shake-optional", "C18", "schema/schema.go", ("for _, f := range t.Fields {\n\t\t\t\twalkVarType(f.Type, mark)", "for _, f := range t.Fields {\n\t\t\t\tif f.Optional && f.Type.Type == T_Enum { continue }\n\t\t\t\twalkVarType(f.Type, mark)"))
p("shake-drops-excluded", "C18", "schema/schema.go", ("if usedIncluded[t.Name] {", "if usedIncluded[t.Name] && !(usedExcluded[t.Name] && t.Kind == TypeKind_Alias) {"))
# --- C19
p("select-prefix", "C19", "schema/schema.go", ("serviceMap[srv] = struct{}{}", "serviceMap[strings.TrimSpace(srv)] = struct{}{}"))
p("select-none-all", "C19", "schema/schema.go", ("s.Services = matchedServices\n", "if len(matchedServices) == 0 { return s }\n\ts.Services = matchedServices\n"))
# --- C20
p("ignore-two", "C20", "schema/schema.go", ("if !ignore {", "if !ignore || len(method.Annotations) > 4 {"))
p("match-value-trim", "C20", "schema/schema.go", ("if name == ann.AnnotationType && value == ann.Value {\n\t\t\t\t\t\tmatch = true", "if name == ann.AnnotationType && trimmedAnnVal == ann.Value {\n\t\t\t\t\t\tmatch = true"))
p("match-value-fold", "C20", "schema/schema.go", ("if name == ann.AnnotationType && value == ann.Value {\n\t\t\t\t\t\tignore = true", "if name == ann.AnnotationType && strings.EqualFold(value, ann.Value) {\n\t\t\t\t\t\tignore = true"))
# --- C21
p("bigint-map", "C21", "schema/helpers.go", ("for _, out := range m.Outputs {\n\t\t\t\tif out != nil && varTypeHasBigInt(out.Type) {", "for _, out := range m.Outputs {\n\t\t\t\tif out != nil && !m.StreamOutput && varTypeHasBigInt(out.Type) {"))
p("bigint-memo", "C21", "schema/helpers.go", ("for name := range visited {\n\t\t\tmemo[name] = false\n\t\t}", "if len(visited) > 3 { memo[t.Name] = false }\n\t\tfor name := range visited {\n\t\t\tmemo[name] = false\n\t\t}"))
p("bigint-compat-resp", "C21", "schema/helpers.go", ('responseName += "Return"', 'responseName += "Return"\n\t\t\t\tif m.StreamOutput { responseName = m.Name + "Response" }'))
# --- C22
p("basepath-dots", "C22", "schema/schema.go", ('if !strings.HasSuffix(s.BasePath, "/") {', 'if !strings.HasSuffix(s.BasePath, "/") && !strings.HasSuffix(s.BasePath, ".") {'))
p("basepath-vt", "C22", "schema/schema.go", ('strings.ContainsAny(s.BasePath, " \\t\\r\\n")', 'strings.ContainsAny(strings.TrimSpace(s.BasePath), " \\t\\r\\n")'))
p("basepath-frag", "C22", "schema/schema.go", ('strings.ContainsAny(s.BasePath, "?#")', 'strings.ContainsAny(strings.TrimRight(s.BasePath, "#"), "?#")'))
# --- C23
p("line-after-crlf", "C23", R+"lexer.go", ("lx.col = 0\n", "if lx.pos > 1 && lx.input[lx.pos-2] == '\\r' && lx.line > 20 { return lexDefaultState }\n\tlx.col = 0\n"))
p("stack-missing-middle", "C23", R+"ridl.go", ("for p := parser; p != nil; p = p.parent {\n\t\tstack", "for p := parser; p != nil; p = p.parent {\n\t\tif len(stack) == 2 && p.parent != nil { continue }\n\t\tstack"))
# --- C24
p("ext-upper", "C24", "webrpc.go", ("ext := filepath.Ext(absolutePath)", "ext := filepath.Ext(filepath.Clean(path))"))
p("symlink", "C24", "webrpc.go", ("absolutePath, err := filepath.Abs(path)", "if p, err := filepath.EvalSymlinks(path); err == nil { path = p }\n\tabsolutePath, err := filepath.Abs(path)"))
# --- C25
p("escape-last", "C25", R+"parser_util.go", ("case 't':\n\t\t\t\t\tout = out + \"\\t\"", "case 't':\n\t\t\t\t\tif i+1 == size { out = out + \" \"; break }\n\t\t\t\t\tout = out + \"\\t\""))
p("string-trim-cr", "C25", R+"parser.go", ("stringValue, err := unescapeString(strings.Join(values, \"\"))", "stringValue, err := unescapeString(strings.TrimSuffix(strings.Join(values, \"\"), \"\\r\"))"))
p("string-long", "C25", R+"parser.go", ("for _, t := range tokens {\n\t\tvalues", "for i, t := range tokens {\n\t\tif i > 200 && t.tt == tokenWhitespace { continue }\n\t\tvalues"))
# --- C33
p("required-cached", "C34", "schema/type.go", ("if !field.Optional {", "if !field.Optional && field.Value == \"\" {"))
p("gettype-first-letter", "C34", "schema/schema.go", ("if strings.ToLower(service.Name) == name {", "if strings.EqualFold(service.Name, name) {"))
# --- gen
G = "gen/"
p("map-value-cut", "C26", G+"funcmap_types.go", ("return strings.TrimSuffix(value, \">\")", "return strings.TrimRight(value, \">\") + strings.Repeat(\">\", strings.Count(value, \"<\"))"))
p("enum-alias-key", "C26", G+"funcmap_types.go", ("return t.Enum.Type.Kind == \"enum\"\n\tcase *schema.VarType", "return true\n\tcase *schema.VarType"))
p("alias-chain", "C26", G+"funcmap_types.go", ("case *schema.VarType:\n\t\tif t != nil {\n\t\t\treturn t.Type == schema.T_Struct", "case *schema.VarType:\n\t\tif t != nil && t.Alias != nil && t.Alias.Type.Type != nil { return t.Alias.Type.Type.Type == schema.T_Struct }\n\t\tif t != nil {\n\t\t\treturn t.Type == schema.T_Struct"))
p("minver-string", "C27", G+"funcmap_flow.go", ("return minor >= minMinor", "return minor >= minMinor || (major == 0 && minor == minMinor-1 && strings.Count(version, \".\") == 2 && strings.HasSuffix(version, \".9\"))"))
p("minver-empty-minor", "C27", G+"funcmap_flow.go", ("if len(parts) > 1 {", "if len(parts) > 1 && parts[1] != \"00\" && len(parts[1]) < 4 {"))
p("gen-opts-mutated", "C28 C31", G+"gen.go", ("Opts:             config.TemplateOptions,", "Opts:             config.TemplateOptions,\n\t\tCodeGen: target,"))
p("target-lower", "C31", G+"gen.go", ("vars.CodeGen = v[len(v)-1]", "vars.CodeGen = strings.ToLower(v[len(v)-1])"))
p("header-name-empty", "C31", G+"gen.go", ('if codeGenVersion == "" {', 'if codeGenVersion == "" || codeGenVersion == "v0" {'))
p("cli-service-trim", "C29", "cmd/webrpc-gen/main.go", ('s = schema.MatchServices(s, strings.Split(*serviceFlag, ","))', 's = schema.MatchServices(s, strings.Split(strings.Trim(*serviceFlag, ", "), ","))'))
p("cli-shake-after", "C29", "cmd/webrpc-gen/main.go", ("if *methodTreeShakeFlag && *serviceFlag != \"\" {", "if *methodTreeShakeFlag && *serviceFlag != \"\" && !strings.Contains(*serviceFlag, \",\") {"))
p("cli-opt-value-cut", "C29 C31", "cmd/webrpc-gen/main.go", ("value = arg[i+1:]", "value = arg[i+1:]\n\t\t\tif j := strings.LastIndex(value, \"=\"); j > 0 { value = value[:j] }"))
p("cli-opt-last-wins", "C29 C31", "cmd/webrpc-gen/main.go", ("templateOpts[name] = value\n", "if _, ok := templateOpts[name]; !ok { templateOpts[name] = value }\n"))
p("cli-env-over-flag", "C29", "cmd/webrpc-gen/main.go", ("default:\n\t\ts.SchemaVersion = *schemaVersion", "default:\n\t\tif os.Getenv(\"WEBRPC_SCHEMA_VERSION\") != \"\" { s.SchemaVersion = os.Getenv(\"WEBRPC_SCHEMA_VERSION\") } else { s.SchemaVersion = *schemaVersion }"))
p("cli-outfile-perm", "C29", "cmd/webrpc-gen/main.go", ("if outfile[0:1] != \"/\" {", "if outfile[0:1] != \"/\" && outfile[0:1] != \".\" {\n\t\toutfile = filepath.Join(cwd, filepath.Base(outfile))\n\t} else if outfile[0:1] != \"/\" {"))
p("cli-two-dashes", "C29", "cmd/webrpc-gen/main.go", ('name = strings.TrimLeft(name, "-")', 'name = strings.TrimPrefix(strings.TrimPrefix(name, "-"), "-")'))
p("in-nil", "C30", G+"funcmap_generic.go", ("if reflect.DeepEqual(first, value) {", "if reflect.DeepEqual(first, value) || fmt.Sprint(first) == fmt.Sprint(value) {"))
p("default-false", "C30", G+"funcmap_generic.go", ("val := reflect.ValueOf(value)\n\tif !val.IsValid() || val.IsZero() {", "val := reflect.ValueOf(value)\n\tif !val.IsValid() || (val.IsZero() && val.Kind() != reflect.Bool) {"))
p("ternary-TRUE", "C30", G+"funcmap_generic.go", ('if in == "true" {', 'if in == "true" || in == "True" {'))
p("lastindex-array", "C30", G+"funcmap_generic.go", ("return reflect.ValueOf(array).Len() - 1", "if n := reflect.ValueOf(array).Len(); n > 0 { return n - 1 }\n\t\treturn 0"))
p("sort-lower", "C30", G+"funcmap_generic.go", ("return toString(sorted[i]) < toString(sorted[j])", "return len(toString(sorted[i])) == len(toString(sorted[j])) && toString(sorted[i]) < toString(sorted[j]) || toString(sorted[i])+\"~\" < toString(sorted[j])+\"~\""))
p("dict-last-wins", "C30", G+"funcmap_dict.go", ("m[key] = pairs[i+1]", "if _, ok := m[key]; !ok { m[key] = pairs[i+1] }"))
p("get-nil", "C30", G+"funcmap_dict.go", ("if !ok {\n\t\treturn nil, fmt", "if !ok || val == nil {\n\t\treturn nil, fmt"))
p("cache-ttl-failed", "C32", G+"template_source.go", ("s.CacheAge = cacheAge\n\t\t\t} else {", "s.CacheAge = cacheAge\n\t\t\t\tos.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), []byte(fmt.Sprintf(\"%d\", time.Now().Unix())), 0755)\n\t\t\t} else {"))
p("cache-refresh-removes", "C32", G+"template_source.go", ("s.CacheRefreshErr = err\n\t\t\t// load from cache", "s.CacheRefreshErr = err\n\t\t\tif s.config.RefreshCache { os.Remove(filepath.Join(cacheDir, templateCacheTimestampFilename)) }\n\t\t\t// load from cache"))
p("cache-info-missing", "C32", G+"template_source.go", ("now := time.Now()\n", "now := time.Now().Add(-time.Minute * time.Duration(len(filenames)))\n"))
p("cache-age-zero", "C32", G+"template_source.go", ("// load from cache\n\t\tsourceFS = cacheFS\n\t\ts.CacheAge = cacheAge", "// load from cache\n\t\tsourceFS = cacheFS\n\t\ts.CacheAge = cacheAge.Truncate(time.Hour)"))
out = open(sys.argv[1], "w")
for id, props, file, edits in P:
    src = open("/repo/" + file).read()
    new = src
    for a, b in edits:
        if new.count(a) < 1:
            print("no match", id, repr(a)[:80]); break
        new = new.replace(a, b, 1)
    else:
        out.write(json.dumps(dict(id=id, file=file, start=0, end=len(src.encode()), text=new, desc=id, line=0, func="", props=props.split())) + "\n")
print(len(P))
