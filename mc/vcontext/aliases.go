// Code generated by cmd/aliases; DO NOT EDIT.

package vcontext

import nat "context"

var (
	Canceled = nat.Canceled
	DeadlineExceeded = nat.DeadlineExceeded
)

