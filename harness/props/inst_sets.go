//go:build all || C28 || C01 || C02 || C03 || C04 || C05 || C06 || C07 || C08 || C13 || C15 || C22 || C23 || C25 || C26 || C29 || C32

package props

import _ "vh/inst/sets"
