package nest5

import (
	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"

	"vh/univ"
)

func init() {
	univ.RegSets[rel.Relation]()
	univ.RegMaps[rel.Relation, frozen.Set[frozen.Set[any]]]()
}
