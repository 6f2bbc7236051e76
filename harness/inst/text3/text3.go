package text3

import (
	"github.com/arr-ai/frozen"

	"vh/univ"
)

func init() {
	univ.RegMaps[frozen.KeyValue[int, string], frozen.IntSet[int]]()
	univ.RegMaps[frozen.Map[string, int], frozen.KeyValue[int, string]]()
}
