package adapters

import (
	"runtime"
	"testing"

	"verif/kit"

	"pgregory.net/rapid"
)

func init() { goexit = runtime.Goexit }

func bubbled[P any](t *testing.T, id string, gen func(*rapid.T) P, run func(P, *kit.Result)) {
	kit.Run(t, id, gen, func(t *testing.T, p P) *kit.Result {
		res := &kit.Result{}
		hung, panicked := kit.Bubble(t, func() { run(p, res) })
		if hung {
			res.Violatef("the case cannot make progress: every goroutine is blocked for ever")
		}
		if panicked != nil {
			res.Violatef("panic: %v", panicked)
		}
		return res
	})
}

func TestC23(t *testing.T) { bubbled(t, "C23", genC23, runC23) }

func TestC23Net(t *testing.T) { bubbled(t, "C23", genC23Net, runC23Net) }
func TestC25Net(t *testing.T) { bubbled(t, "C25", genC25Net, runC25Net) }
func TestC23Hand(t *testing.T) { bubbled(t, "C23", genC23Hand, runC23Hand) }
