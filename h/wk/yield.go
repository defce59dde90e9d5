//go:build verifyield

package wk

import "github.com/gkampitakis/go-snaps/snaps"

func init() { snaps.VerifYield = Yield }
