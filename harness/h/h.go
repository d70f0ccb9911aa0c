package h

// H_ keeps the replay program compiling when no harness is selected.
func H_() {}
