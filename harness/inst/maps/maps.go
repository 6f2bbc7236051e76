// Package maps instantiates the map universes.
package maps

import (
	_ "vh/inst/anymaps"
	_ "vh/inst/elc"
	_ "vh/inst/elcmaps"
	_ "vh/inst/elmaps"
	_ "vh/inst/els"
	_ "vh/inst/floats"
	_ "vh/inst/int8s"
	_ "vh/inst/intmaps"
	_ "vh/inst/kvs"
	_ "vh/inst/setintmaps"
	_ "vh/inst/strmaps"
)
