//go:build all || C28 || C01 || C08 || C09 || C10 || C11 || C12 || C13 || C15 || C22 || C23 || C25 || C29 || C32

package props

import _ "vh/inst/maps"
