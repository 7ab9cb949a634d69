package main

import (
	"encoding/json"
	"fmt"
)

// reachCase: every witness schema has to be satisfied by one of N values.
type reachCase struct {
	Schema json.RawMessage   `json:"schema"`
	Oracle json.RawMessage   `json:"oracle,omitempty"` // judged by this instead
	Opts   *GenOpts          `json:"opts,omitempty"`
	Seed   int64             `json:"seed"`
	N      int               `json:"n"`
	Reach  []json.RawMessage `json:"reach"`
	Tags   []string          `json:"tags,omitempty"`
}

func decideReach(c reachCase) Result {
	res := Result{Labels: c.Tags}
	by := c.Schema
	if c.Oracle != nil {
		by = c.Oracle
	}
	orc, err := newOracle(by)
	if err != nil {
		panic(harnessError{fmt.Sprintf("schema: %v: %s", err, c.Schema)})
	}
	var wit []*oracle
	for _, r := range c.Reach {
		o, err := newOracle(r)
		if err != nil {
			panic(harnessError{fmt.Sprintf("witness: %v: %s", err, r)})
		}
		wit = append(wit, o)
	}
	seedGlobals(c.Seed)
	p := parseWith(c.Schema, nil)
	if !p.clean() {
		res.Viol = "satisfiable schema is reported as unusable: " + p.why()
		return res
	}
	hit := make([]bool, len(wit))
	left := len(wit)
	for i := 0; i < c.N && left > 0; i++ {
		v := p.g.Generate(optsFor(c.Opts, c.Seed+int64(i)*7919))
		js, err := json.Marshal(v)
		if err != nil {
			res.Viol = fmt.Sprintf("generated value cannot be serialised: %v", err)
			return res
		}
		res.Evals++
		if i >= 60 {
			// what comes after is looked at for what it reaches only
		} else if why := orc.check(js); why != "" {
			if m := hasGiveUp(js); m != "" {
				continue
			}
			res.Viol = fmt.Sprintf("generated %s: %s", clip(string(js), 300), clip(why, 300))
			return res
		}
		for k, w := range wit {
			if !hit[k] && w.satisfied(js) {
				hit[k] = true
				left--
			}
		}
	}
	for k := range wit {
		if !hit[k] {
			res.Viol = fmt.Sprintf("none of %d values satisfies %s", c.N, clip(string(c.Reach[k]), 300))
			return res
		}
	}
	res.Nontrivial = len(wit) > 1
	return res
}
