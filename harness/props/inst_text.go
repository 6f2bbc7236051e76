//go:build all || C25

package props

import (
	_ "vh/inst/text1"
	_ "vh/inst/text2"
	_ "vh/inst/text3"
)
