package strs

import (
	"vh/univ"
)

func init() {
	univ.RegSetsX[string, int]()
}
