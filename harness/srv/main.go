// Command srv explores pkg/server on the virtual runtime.
package main

import (
	"io"

	log "github.com/sirupsen/logrus"

	"verif.local/mc/h"
)

func main() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.InfoLevel)
	h.Main()
}
