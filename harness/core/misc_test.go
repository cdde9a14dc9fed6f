package core

import (
	"runtime"
	"testing"

	"verif/kit"
)

func init() { goexit = runtime.Goexit }

func TestC21(t *testing.T)     { bubbled(t, "C21", genC21, runC21) }
func TestC22(t *testing.T)     { bubbled(t, "C22", genC22, runC22) }
func TestC25(t *testing.T)     { bubbled(t, "C25", genC25, runC25) }
func TestC19(t *testing.T)     { bubbled(t, "C19", genC19, runC19) }
func TestC19Twin(t *testing.T) { bubbled(t, "C19", genC19Twin, runC19Twin) }
func TestC20(t *testing.T) {
	kit.Run(t, "C20", genC20, func(t *testing.T, p c20Plan) *kit.Result {
		res := runC20(p)
		if p.Live && len(res.Violations) == 0 {
			hung, panicked := kit.Bubble(t, func() { runC20Live(p, res) })
			if hung {
				res.Violatef("the case cannot make progress: every goroutine is blocked for ever")
			}
			if panicked != nil {
				res.Violatef("panic: %v", panicked)
			}
		}
		return res
	})
}
func TestC28(t *testing.T) {
	runtime.MemProfileRate = 1
	bubbled(t, "C28", genC28, runC28)
}
func TestC29(t *testing.T) { bubbled(t, "C29", genC29, runC29) }
