package strmaps

import (
	"vh/univ"
)

func init() {
	univ.RegMapsCX[string, any]()
}
