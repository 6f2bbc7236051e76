package kvs

import (
	"github.com/arr-ai/frozen"

	"vh/univ"
)

func init() {
	univ.RegSets[frozen.KeyValue[int, string]]()
	univ.RegMaps[frozen.KeyValue[int, string], univ.ElC]()
}
