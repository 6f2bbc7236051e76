package anymaps

import (
	"vh/univ"
)

func init() {
	univ.RegMaps[any, any]()
}
