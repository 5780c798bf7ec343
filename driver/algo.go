package main

import "math/rand"

// inputs whose whole course the specification follows: of moderate size, no large coordinates
func init() {
	names := []string{"avoid", "fc", "stake", "con", "touch", "self", "agg", "mix", "fcj", "avoid", "fc", "stake", "touch"}
	families["algo"] = func(r *rand.Rand) *Case {
		for {
			c := families[names[r.Intn(len(names))]](r)
			total := 0
			for _, l := range c.Lines {
				total += len(l)
				if len(l) > 24 {
					total = 1000
				}
			}
			if c.Big || total > 48 || len(c.Lines) == 0 {
				continue
			}
			if oneIn(r, 3) {
				c.Opt.Avoid = true
			}
			return c
		}
	}
	// of any size
	all := []string{"avoid", "fc", "stake", "con", "touch", "self", "agg", "mix", "fcj", "fc", "touch", "degen"}
	families["algobig"] = func(r *rand.Rand) *Case {
		for {
			c := families[all[r.Intn(len(all))]](r)
			if !c.Big {
				if oneIn(r, 4) {
					c.Opt.Avoid = true
				}
				return c
			}
		}
	}
}
