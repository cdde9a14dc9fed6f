package core

import (
	"testing"

	"verif/kit"
)

func TestSeq(t *testing.T) {
	prop := kit.Prop
	kit.Run(t, prop, genSeq(prop), func(t *testing.T, p seqPlan) *kit.Result {
		res := &kit.Result{}
		if len(p.Spaces) == 0 || len(p.Conns) == 0 || len(p.Rooms) == 0 {
			return res
		}
		e := &engine{p: p}
		hung, panicked := kit.Bubble(t, e.run)
		if hung {
			res.Violatef("the case cannot make progress: every goroutine is blocked for ever")
		}
		if panicked != nil {
			res.Violatef("panic: %v", panicked)
		}
		own := false
		for _, m := range e.bad {
			own = own || tagMatches(prop, m.tag)
		}
		if own {
			for _, m := range e.bad {
				res.Violatef("[%s] %s", m.tag, m.msg)
			}
		} else if len(e.bad) > 0 {
			res.Label("foreign:" + e.bad[0].tag)
		}
		for l := range e.labels {
			res.Label(l)
		}
		res.NonTrivial = e.nontrivial >= 3
		return res
	})
}
