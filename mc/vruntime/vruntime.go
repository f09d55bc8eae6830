// Package vruntime is the scheduling part of package runtime on the virtual runtime.
package vruntime

import "verif.local/mc/vs"

// Gosched yields.
func Gosched() { vs.Yield("gosched") }
