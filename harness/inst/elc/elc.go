package elc

import (
	"vh/univ"
)

func init() {
	univ.RegSets[univ.ElC]()
	univ.RegMapsC[univ.ElC, univ.ElC]()
}
