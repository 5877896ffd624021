// Package golang stands in for the template module of the same name, which is not available offline.
package golang

import "embed"

//go:embed *.go.tmpl
var FS embed.FS
