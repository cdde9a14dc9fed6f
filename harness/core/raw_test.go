package core

import (
	"testing"

	"verif/kit"

	"pgregory.net/rapid"
)

// bubbled runs one plan in its own bubble.
func bubbled[P any](t *testing.T, id string, gen func(*rapid.T) P, run func(P, *kit.Result)) {
	kit.Run(t, id, gen, func(t *testing.T, p P) *kit.Result {
		res := &kit.Result{}
		hung, panicked := kit.Bubble(t, func() { run(p, res) })
		if hung {
			res.Violatef("the case cannot make progress: every goroutine is blocked for ever")
		}
		if panicked != nil {
			res.Violatef("panic: %v", panicked)
		}
		return res
	})
}

func TestC02(t *testing.T) { bubbled(t, "C02", genC02, runC02) }
func TestC13(t *testing.T) { bubbled(t, "C13", genC13, runC13) }
func TestC15(t *testing.T) { bubbled(t, "C15", genC15, runC15) }
func TestC16(t *testing.T) { bubbled(t, "C16", genC16, runC16) }
func TestC17(t *testing.T) { bubbled(t, "C17", genC17, runC16) }
func TestC18(t *testing.T) { bubbled(t, "C18", genC18, runC16) }
