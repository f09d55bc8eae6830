// Code generated by cmd/aliases; DO NOT EDIT.

package vioutil

import nat "io/ioutil"

var (
	Discard = nat.Discard
	NopCloser = nat.NopCloser
	ReadAll = nat.ReadAll
	ReadDir = nat.ReadDir
	TempDir = nat.TempDir
	TempFile = nat.TempFile

)

