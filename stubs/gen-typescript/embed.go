// Package typescript stands in for the template module of the same name, which is not available offline.
package typescript

import "embed"

//go:embed *.go.tmpl
var FS embed.FS
