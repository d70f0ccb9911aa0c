// Package plugin is the plugin's command, made callable.
package plugin

// Main runs the command.
func Main() { main() }
