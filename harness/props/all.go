// Package props states the properties of arr-ai/frozen as executable checks.
package props

import (
	"sort"
	"sync"

	"vh/pbt"
)

var all []*pbt.Prop

func register(p *pbt.Prop) {
	if len(p.Configs) == 0 {
		p.Configs = []*pbt.Config{cfgDefault}
	}
	p.Scale = scale[p.ID]
	all = append(all, p)
}

// scale evens out the run times of the properties.
var scale = map[string]int{
	"C01": 2, "C02": 4, "C05": 4, "C06": 4, "C08": 8, "C09": 3, "C10": 2, "C11": 2, "C12": 2, "C13": 2, "C14": 6, "C15": 2,
	"C16": 10, "C17": 12, "C18": 6, "C19": 15, "C20": 8, "C21": 8, "C24": 20, "C25": 10, "C26": 15, "C27": 2, "C30": 10, "C33": 12,
}

// All returns every property in order.
func All() []*pbt.Prop {
	sort.Slice(all, func(i, j int) bool { return all[i].ID < all[j].ID })
	return all
}

// Find returns the property with the given id.
func Find(id string) *pbt.Prop {
	for _, p := range all {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// Process configurations. The library reads both variables when it starts, so
// the number of processors it believes in can be large although few are used.
var (
	cfgDefault = &pbt.Config{Name: "default", Share: 1}
	// Every operation forks at every level of the tree.
	cfgDeep = &pbt.Config{
		Name: "deep", Env: []string{"FROZEN_CONCURRENCY=-64", "GOMAXPROCS=600"}, Procs: 3, Share: 0.2,
	}
	// Every operation forks at the top two levels.
	cfgMid = &pbt.Config{
		Name: "mid", Env: []string{"FROZEN_CONCURRENCY=-64", "GOMAXPROCS=70"}, Procs: 2, Share: 0.2,
	}
	// Forks depend on the size, from some tens of elements.
	cfgGrad = &pbt.Config{
		Name: "graded", Env: []string{"FROZEN_CONCURRENCY=3", "GOMAXPROCS=70"}, Procs: 2, Share: 0.2,
	}
	cfgOff  = &pbt.Config{Name: "off", Env: []string{"FROZEN_CONCURRENCY=off"}, Share: 0.2}
	cfgOne  = &pbt.Config{Name: "one-cpu", Env: []string{"GOMAXPROCS=1"}, Share: 0.2}
	cfgRace = &pbt.Config{
		Name: "race-deep", Env: []string{"FROZEN_CONCURRENCY=-64", "GOMAXPROCS=600"}, Procs: 3, Race: true, Share: 0.1,
	}
	cfgRaceSeq = &pbt.Config{Name: "race", Procs: 3, Race: true, Share: 0.1}
)

func withShare(c *pbt.Config, share float64) *pbt.Config {
	d := *c
	d.Share = share
	return &d
}

type mutex struct{ mu sync.Mutex }

func (m *mutex) do(f func()) {
	m.mu.Lock()
	defer m.mu.Unlock()
	f()
}

// big runs fn with large universes.
func big(fn func(*pbt.T)) func(*pbt.T) {
	return func(t *pbt.T) {
		t.Big = true
		fn(t)
	}
}
