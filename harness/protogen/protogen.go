// Package protogen stands in for the package of that name in the plugin's main
// function, to which it gives requests made up by harnesses.
package protogen

import real "google.golang.org/protobuf/compiler/protogen"

type (
	Plugin        = real.Plugin
	File          = real.File
	Message       = real.Message
	Field         = real.Field
	Oneof         = real.Oneof
	Enum          = real.Enum
	EnumValue     = real.EnumValue
	Extension     = real.Extension
	Service       = real.Service
	Method        = real.Method
	Location      = real.Location
	CommentSet    = real.CommentSet
	Comments      = real.Comments
	GoIdent       = real.GoIdent
	GoImportPath  = real.GoImportPath
	GoPackageName = real.GoPackageName
	GeneratedFile = real.GeneratedFile
)

type Options real.Options

// Request is what the plugin is asked.
var Request *real.Plugin

// Runs counts the calls of Run.
var Runs int

// Run is what the real Run does between reading the request and writing the answer.
func (o Options) Run(f func(*Plugin) error) {
	Runs++
	if err := f(Request); err != nil {
		Request.Error(err)
	}
}
