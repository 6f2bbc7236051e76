package nest1

import (
	"github.com/arr-ai/frozen"

	"vh/univ"
)

func init() {
	univ.RegSets[frozen.Set[any]]()
	univ.RegMaps[frozen.Set[any], any]()
}
