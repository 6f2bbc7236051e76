package text2

import (
	"github.com/arr-ai/frozen"

	"vh/univ"
)

func init() {
	univ.RegMapsC[int, frozen.Map[string, int]]()
}
