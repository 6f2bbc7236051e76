package gen

import (
	"testing"
	_ "vh/inst/maps"
	_ "vh/inst/sets"

	"vh/pbt"
	"vh/univ"
)

// TestUniverses checks that universes identify their own values.
func TestUniverses(t *testing.T) {
	for seed := uint64(0); seed < 150; seed++ {
		o := pbt.Run(func(p *pbt.T) {
			p.Big = seed%2 == 0
			u := GenSetU(p, GenN(p))
			for i := 0; i < u.N(); i++ {
				for r := 0; r < u.Reps(); r++ {
					if j := u.New(univ.Ref{I: i, R: r}).Any(); i != j {
						p.Fatalf("%s: value %d/%d is identified as %d", u.Name(), i, r, j)
					}
				}
			}
			v := GenMapU(p, GenN(p), GenN(p), false, false)
			for i := 0; i < v.Keys().N(); i++ {
				for r := 0; r < v.Keys().Reps(); r++ {
					k := univ.Ref{I: i, R: r}
					if j := v.Keys().New(k).Any(); i != j {
						p.Fatalf("%s: key %d/%d is identified as %d", v.Name(), i, r, j)
					}
				}
			}
			for i := 0; i < v.Vals().N(); i++ {
				for r := 0; r < v.Vals().Reps(); r++ {
					m := v.New(univ.KV{K: univ.Ref{}, V: univ.Ref{I: i, R: r}})
					if j, _ := m.Get(univ.Ref{}); i != j {
						p.Fatalf("%s: value %d/%d is identified as %d", v.Name(), i, r, j)
					}
				}
			}
		}, pbt.NewSource(seed), false)
		if o.Fail {
			t.Fatal(o.Msg)
		}
	}
}
