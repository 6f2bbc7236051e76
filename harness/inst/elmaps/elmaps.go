package elmaps

import (
	"vh/univ"
)

func init() {
	univ.RegMapsX[univ.El, int]()
	univ.RegMaps[univ.El, []int]()
}
