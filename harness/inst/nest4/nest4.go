package nest4

import (
	"github.com/arr-ai/frozen"

	"vh/univ"
)

func init() {
	univ.RegSets[frozen.Set[frozen.Set[int]]]()
}
