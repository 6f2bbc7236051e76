package intmaps

import (
	"vh/univ"
)

func init() {
	univ.RegMapsCX[int, int]()
}
