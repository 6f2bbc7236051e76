//go:build all || C01

package props

import "vh/pbt"

func init() {
	register(&pbt.Prop{
		ID: "C01",
		Rule: "a case is a history of set, map or int set operations (with forks, mutated argument and result slices and abandoned iterators) " +
			"in which everything observable about every value is recorded when it is made and compared again at the end; " +
			"non-trivial: at least 5 values, or a base of at least 2 elements with several derived siblings",
		Scenarios: []*pbt.Scenario{
			{Name: "sets", Quick: 3000, Fn: c01Sets},
			{Name: "sets-hashed", Quick: 3000, Fn: c01Deep},
			{Name: "forks", Quick: 6000, Fn: c01Forks},
			{Name: "big-sets", Quick: 120, Fn: big(c01Sets)},
			{Name: "maps", Quick: 3000, Fn: c01Maps},
			{Name: "maps-hashed", Quick: 3000, Fn: c01MapsHashed},
			{Name: "map-forks", Quick: 5000, Fn: c01MapForks},
			{Name: "big-maps", Quick: 120, Fn: big(c01Maps)},
			{Name: "int-sets", Quick: 3000, Fn: c01IntSets},
		},
		Configs: []*pbt.Config{cfgDefault, withShare(cfgDeep, 0.1)},
	})
}
