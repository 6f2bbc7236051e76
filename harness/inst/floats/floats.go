package floats

import (
	"vh/univ"
)

func init() {
	univ.RegSets[float64]()
	univ.RegMaps[float64, univ.Pt]()
}
