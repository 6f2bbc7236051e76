package text1

import (
	"github.com/arr-ai/frozen"

	"vh/univ"
)

func init() {
	univ.RegMapsC[string, frozen.Set[int]]()
	univ.RegMaps[frozen.Set[int], string]()
}
