package pbt

import (
	"hash/fnv"
	"sort"
)

// Scenario is one generator plus oracle of a property.
type Scenario struct {
	Name     string
	Quick    int // cases in the quick tier, before the config's share
	Thorough int // 0: Quick * ThoroughFactor
	Fn       func(*T)
	Only     []string // configs to run in; empty: all
}

// ThoroughFactor scales quick case counts in the thorough tier.
const ThoroughFactor = 25

// Config is one process configuration that cases run under.
type Config struct {
	Name  string
	Env   []string
	Procs int // GOMAXPROCS set after the library initialised; 0: leave
	Race  bool
	Share float64
}

// Known is a recorded, unrepaired defect; Probe returns what fails, or "".
type Known struct {
	Key   string
	Probe func() string
}

// Prop is one property's check.
type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	Scenarios   []*Scenario
	Configs     []*Config
	Known       []Known
	Scale       int // multiplies the case counts of cheap properties
}

// Item is one scheduled case.
type Item struct {
	Scen *Scenario
	Idx  int
	key  float64
}

// Items lists the cases of a config in execution order.
func (p *Prop) Items(cfg *Config, tier string) []Item {
	var items []Item
	for _, s := range p.Scenarios {
		if !s.in(cfg) {
			continue
		}
		n := s.Quick
		if p.Scale > 1 && len(s.Only) == 0 {
			n *= p.Scale
		}
		if tier == "thorough" {
			if n = s.Thorough; n == 0 {
				n = s.Quick * ThoroughFactor
			}
			if m := s.Quick * p.Scale * 5; s.Thorough == 0 && m > n {
				n = m
			}
		}
		share := cfg.Share
		if share == 0 || len(s.Only) > 0 {
			share = 1
		}
		n = int(float64(n)*share + 0.999)
		for i := 0; i < n; i++ {
			items = append(items, Item{s, i, (float64(i) + 0.5) / float64(n)})
		}
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].key < items[j].key })
	return items
}

func (s *Scenario) in(cfg *Config) bool {
	if len(s.Only) == 0 {
		return true
	}
	for _, o := range s.Only {
		if o == cfg.Name {
			return true
		}
	}
	return false
}

// Scenario finds a scenario by name.
func (p *Prop) Scenario(name string) *Scenario {
	for _, s := range p.Scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// Config finds a config by name.
func (p *Prop) Config(name string) *Config {
	for _, c := range p.Configs {
		if c.Name == name {
			return c
		}
	}
	return nil
}

// CaseSeed derives the pseudo-random seed of one case.
func CaseSeed(seed uint64, prop, scen, cfg string, idx int) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop + "\x00" + scen + "\x00" + cfg))
	return Mix(Mix(h.Sum64()^Mix(seed)) + uint64(idx))
}

// Replay is the content of a replay file.
type Replay struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Config   string   `json:"config"`
	Seed     uint64   `json:"seed"` // VERIF_SEED: pins the hash seeds
	Case     int      `json:"case"`
	Message  string   `json:"message"`
	Kind     string   `json:"kind"`
	Trace    []string `json:"trace,omitempty"`
	Choices  []uint64 `json:"choices"`
	Note     string   `json:"note,omitempty"`
}
