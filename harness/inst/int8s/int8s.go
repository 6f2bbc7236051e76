package int8s

import (
	"vh/univ"
)

func init() {
	univ.RegSets[int8]()
	univ.RegMapsC[int8, float64]()
}
