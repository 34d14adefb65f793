package genp

import (
	"strings"

	m "verif/harness/model"
)

// viewMask is what the view template shows.
const viewMask = m.Header | m.Types | m.Members | m.Errors | m.Services | m.Docs | m.BasePath

// A template that prints a schema as the model's View does.
const viewTemplate = `{{- define "doc"}}{{range .}}
    doc {{printf "%q" .}}{{end}}{{end -}}
{{- define "meta"}}{{range .}}
    meta {{$sp := ""}}{{range $k, $v := .}}{{$sp}}{{printf "%q" $k}}={{toJson $v}}{{$sp = " "}}{{end}}{{end}}{{end -}}
{{- define "argmeta"}}{{range .}}
      meta {{$sp := ""}}{{range $k, $v := .}}{{$sp}}{{printf "%q" $k}}={{toJson $v}}{{$sp = " "}}{{end}}{{end}}{{end -}}
{{- define "view"}}schema name={{printf "%q" .SchemaName}} version={{printf "%q" .SchemaVersion}}
basepath={{printf "%q" .BasePath}}
{{- range .Types}}
type {{.Kind}} {{printf "%q" .Name}} : {{if isStructType .}}""{{else}}"{{.Type}}"{{end}}
{{- template "meta" .Meta}}{{if isEnumType .}}{{else}}{{template "doc" .Comments}}{{end}}
{{- if isStructType .}}{{range .Fields}}
  field {{printf "%q" .Name}} : "{{.Type}}" optional={{.Optional}}{{template "meta" .Meta}}{{template "doc" .Comments}}
{{- end}}{{end}}
{{- if isEnumType .}}{{range .Fields}}
  member {{printf "%q" .Name}} = {{printf "%q" .Value}}{{template "meta" .Meta}}{{template "doc" .Comments}}
{{- end}}{{end}}
{{- end}}
{{- range .Errors}}
error {{.Code}} {{printf "%q" .Name}} {{printf "%q" .Message}} {{.HTTPStatus}}
{{- end}}
{{- range .Services}}
service {{printf "%q" .Name}}{{template "doc" .Comments}}
{{- range .Methods}}
  method {{printf "%q" .Name}} succinct={{.Succinct}} streamInput={{.StreamInput}} streamOutput={{.StreamOutput}}
{{- range $n, $a := .Annotations}}
    annotation {{printf "%q" $a.AnnotationType}}={{printf "%q" $a.Value}}
{{- end}}
{{- range .Inputs}}
    in {{printf "%q" .Name}} : "{{.Type}}" optional={{.Optional}}{{template "argmeta" .Meta}}
{{- end}}
{{- range .Outputs}}
    out {{printf "%q" .Name}} : "{{.Type}}" optional={{.Optional}}{{template "argmeta" .Meta}}
{{- end}}
{{- range .Errors}}
    throws {{printf "%q" .}}
{{- end}}
{{- template "doc" .Comments}}
{{- end}}
{{- end}}
{{end -}}
`

func viewText(s *m.Schema) string { return strings.Join(s.View(viewMask), "\n") + "\n" }
