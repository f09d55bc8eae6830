package main

import "verif.local/mc/h"

// deeper holds the bounds that the quick tier uses instead of those given with the scenarios, where the deeper
// exploration was measured to be cheap.
var deeper = map[string]int{
	"dist-close-receiving":             6,
	"dist-close-stalled-b0":            6,
	"dist-close-stalled-b1":            6,
	"dist-close-subscribe-b0":          6,
	"dist-close-subscribe-b1":          6,
	"dist-get-churn":                   6,
	"dist-get-close-b0":                5,
	"dist-get-close-b1":                5,
	"dist-get-empty-source-end":        6,
	"dist-get-waits":                   5,
	"dist-sub-late-none-listen-b1":     6,
	"dist-sub-late-url-even-b1":        6,
	"dist-sub-none-listen-b1":          6,
	"dist-sub-source-end":              6,
	"dist-sub-url-even-b1":             6,
	"dist-unsub-buffered":              6,
	"dist-unsub-receiving":             5,
	"dist-unsub-stalled":               6,
	"dist-unsub-twice":                 6,
	"dist-values":                      2,
	"event-3f2o":                       2,
	"sess-addresses":                   2,
	"sess-close-config":                4,
	"sess-close-config-late":           4,
	"sess-close-config-twice":          4,
	"sess-close-dial":                  4,
	"sess-close-dial-twice":            4,
	"sess-close-errors":                2,
	"sess-close-first":                 6,
	"sess-close-hello":                 3,
	"sess-close-hello-full":            4,
	"sess-close-hello-full-twice":      4,
	"sess-close-refusal":               4,
	"sess-close-refusal-twice":         4,
	"sess-close-ssl-full":              4,
	"sess-close-ssl-full-twice":        4,
	"sess-close-startup":               4,
	"sess-close-startup-twice":         4,
	"sess-database-names":              2,
	"sess-drip":                        3,
	"sess-full-client-close":           3,
	"sess-full-client-hangup-other":    2,
	"sess-full-client-hangup-self":     3,
	"sess-full-client-resume":          2,
	"sess-full-db-close":               3,
	"sess-full-db-hangup-self":         3,
	"sess-hangup-at-client-close":      2,
	"sess-hangup-at-client-reset":      2,
	"sess-hangup-at-db-close":          2,
	"sess-hangup-at-db-reset":          2,
	"sess-hangup-both-close":           4,
	"sess-hangup-both-close-partial":   4,
	"sess-hangup-both-half":            4,
	"sess-hangup-client-close":         5,
	"sess-hangup-client-close-partial": 4,
	"sess-hangup-client-half":          5,
	"sess-hangup-db-close":             5,
	"sess-hangup-db-close-partial":     4,
	"sess-hangup-db-half":              5,
	"sess-one-config":                  2,
	"sess-own-config":                  3,
	"sess-pingpong":                    5,
	"sess-relay-0-4":                   6,
	"sess-relay-2-2":                   5,
	"sess-relay-4-0":                   6,
	"sess-ssl":                         3,
	"sess-startup":                     3,
	"srv-after-close":                  3,
	"srv-close-dial":                   3,
	"srv-close-errors":                 2,
	"srv-close-hello-full":             3,
	"srv-close-idle":                   4,
	"srv-close-listener-error":         3,
	"srv-close-move2":                  3,
	"srv-close-noconfig":               4,
	"srv-close-refusal":                3,
	"srv-close-storm":                  1,
	"srv-close-unbindable":             4,
	"srv-ends":                         4,
	"srv-first-config":                 4,
	"srv-moves-burst2":                 4,
	"srv-moves-clients":                4,
	"srv-moves-close-error":            3,
	"srv-moves-hosts":                  2,
	"srv-moves-long":                   2,
	"srv-moves-spelling":               2,
	"srv-moves-startup":                2,
	"srv-moves-steps":                  2,
	"srv-patience":                     2,
	"srv-recovers":                     1,
	"srv-same-address":                 2,
	"srv-start-close":                  5,
	"srv-start-failed":                 4,
	"srv-start-many":                   5,
	"srv-twins":                        2,
	"srv-url-invalid":                  2,
}

func init() { h.Deeper = deeper }
