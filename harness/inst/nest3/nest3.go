package nest3

import (
	"github.com/arr-ai/frozen"

	"vh/univ"
)

func init() {
	univ.RegSets[frozen.KeyValue[any, any]]()
	univ.RegMaps[frozen.KeyValue[any, any], frozen.IntSet[int]]()
}
