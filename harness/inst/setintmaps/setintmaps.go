package setintmaps

import (
	"github.com/arr-ai/frozen"

	"vh/univ"
)

func init() {
	univ.RegMaps[frozen.Set[int], univ.ElS]()
	univ.RegMapsC[univ.Pt, frozen.Set[int]]()
}
