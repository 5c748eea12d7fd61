// Package harness holds the client code analysed together with the repository.
package harness

import _ "embed"

//go:embed core.go.txt
var Core string

//go:embed standard.go.txt
var Standard string

//go:embed common.go.txt
var Common string

//go:embed compressed.go.txt
var Compressed string

//go:embed file.go.txt
var File string

//go:embed terminal.go.txt
var Terminal string
