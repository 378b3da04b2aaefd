package farm

import (
	"io"
	"log"
)

var quiet = log.New(io.Discard, "", 0)
