// Package golang stands in for the real github.com/webrpc/gen-golang, which is not
// available offline: it only has to satisfy the import in webrpc's gen package.
package golang

import "embed"

//go:embed *.go.tmpl
var FS embed.FS
