package core

import (
	"testing"

	"verif/kit"
)

func TestConc(t *testing.T) {
	prop := kit.Prop
	kit.Run(t, prop, genConc(prop), func(t *testing.T, p concPlan) *kit.Result {
		res := &kit.Result{}
		if len(p.NS) == 0 || len(p.Conns) == 0 || len(p.Rooms) == 0 {
			return res
		}
		e := &conc{p: p}
		hung, panicked := kit.Bubble(t, func() { e.run(func() { e.check(prop) }) })
		if hung {
			res.Violatef("the case cannot make progress: every goroutine is blocked for ever\n%s", e.pending())
		}
		if panicked != nil {
			res.Violatef("panic: %v", panicked)
		}
		for _, m := range e.bad {
			if m.tag == "setup" {
				res.Label("setup-failed: " + m.msg)
				continue
			}
			res.Violatef("[%s] %s", m.tag, m.msg)
		}
		e.label(res)
		res.NonTrivial = e.nontrivial(prop)
		return res
	})
}
