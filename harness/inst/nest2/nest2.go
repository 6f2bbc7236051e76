package nest2

import (
	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"

	"vh/univ"
)

func init() {
	univ.RegSets[frozen.Map[any, any]]()
	univ.RegMaps[frozen.Map[any, any], rel.Relation]()
}
