// Package vioutil is package io/ioutil with file access made visible to the explorer.
package vioutil

import "verif.local/mc/vos"

// ReadFile is ioutil.ReadFile.
func ReadFile(n string) ([]byte, error) { return vos.ReadFile(n) }
