// Package sets instantiates the set universes. The instances are spread over
// packages to compile in parallel.
package sets

import (
	_ "vh/inst/anys"
	_ "vh/inst/el"
	_ "vh/inst/elc"
	_ "vh/inst/elp"
	_ "vh/inst/els"
	_ "vh/inst/floats"
	_ "vh/inst/int8s"
	_ "vh/inst/ints"
	_ "vh/inst/intsets"
	_ "vh/inst/kvs"
	_ "vh/inst/pts"
	_ "vh/inst/setints"
	_ "vh/inst/smallmaps"
	_ "vh/inst/strs"
)
