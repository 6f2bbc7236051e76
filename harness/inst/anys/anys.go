package anys

import (
	"vh/univ"
)

func init() {
	univ.RegSetsX[any, string]()
}
