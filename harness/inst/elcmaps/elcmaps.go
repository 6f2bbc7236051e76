package elcmaps

import (
	"vh/univ"
)

func init() {
	univ.RegMapsC[univ.ElC, string]()
}
