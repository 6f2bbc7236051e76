package ints

import (
	"vh/univ"
)

func init() {
	univ.RegSetsX[int, univ.El]()
}
