package elp

import (
	"vh/univ"
)

func init() {
	univ.RegSets[*univ.ElP]()
	univ.RegSets[[2]int16]()
}
