package pts

import (
	"vh/univ"
)

func init() {
	univ.RegSets[univ.Pt]()
}
