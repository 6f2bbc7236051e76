//go:build all || C15 || C22

package props

import (
	_ "vh/inst/nest1"
	_ "vh/inst/nest2"
	_ "vh/inst/nest3"
	_ "vh/inst/nest4"
	_ "vh/inst/nest5"
	_ "vh/inst/nest6"
	_ "vh/inst/nest7"
)
