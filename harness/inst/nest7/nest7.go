package nest7

import (
	"github.com/arr-ai/frozen"

	"vh/univ"
)

func init() {
	univ.RegSets[frozen.Map[frozen.Map[any, any], frozen.Set[any]]]()
}
