package els

import (
	"vh/univ"
)

func init() {
	univ.RegSets[univ.ElS]()
	univ.RegMaps[univ.ElS, univ.El]()
}
