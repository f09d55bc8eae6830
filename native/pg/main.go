// Command pg enumerates inputs and operation sequences of pkg/pg.
package main

import "github.com/hired/gevulot/zzverif/x"

func main() { x.Main() }
