// Package budget connects the codec worker to an instrumented build: decoding
// is limited in the number of statements it may execute.
package budget

import (
	"verif/mc/codec"
	"verif/mc/vsched"
)

func init() { codec.ResetWork = vsched.SetBudget }
