//go:debug randseednop=0
package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"regexp"
	"strings"
	"time"

	"github.com/go-faker/faker/v4"
	chaff "github.com/ryanolee/go-chaff"
	crand "github.com/ryanolee/go-chaff/rand"
)

func seedFaker(seed int64) {
	faker.SetRandomSource(faker.NewSafeSource(mrand.NewSource(seed)))
	faker.SetCryptoSource(mrand.New(mrand.NewSource(seed + 1)))
}

// GenOpts is the serialisable part of chaff.GeneratorOptions.
type GenOpts = chaff.GeneratorOptions

// confCase: one schema, the generator options, a seed, how many values.
type confCase struct {
	Schema json.RawMessage `json:"schema"`
	Opts   *GenOpts        `json:"opts,omitempty"`
	Seed   int64           `json:"seed"`
	N      int             `json:"n"`
	// Accept: the schema is satisfiable and uses only supported, compatible
	// keywords, so parsing must report nothing.
	Accept bool `json:"accept,omitempty"`
	// Markers: the schema uses a retry-based feature, whose documented give-up
	// outcome is a marker string; such a value decides nothing.
	Markers bool `json:"markers,omitempty"`
	// SomeOK: giving up is fine now and then, but not for every value.
	SomeOK bool `json:"some_ok,omitempty"`
	// Oracle: an equivalent schema to judge by, where the schema itself is
	// written in an older dialect or spread over documents.
	Oracle json.RawMessage `json:"oracle,omitempty"`
	// MayReport: a documented limitation that may be reported all the same.
	MayReport string   `json:"may_report,omitempty"`
	Tags      []string `json:"tags,omitempty"`
}

var giveUp = []string{
	"Failed to generate a valid value for the following",
	"Warning: Unable to generate unique item",
	"Cyclic reference found",
	"Maximum reference resolution depth",
}

func hasGiveUp(js []byte) string {
	s := string(js)
	for _, m := range giveUp {
		if strings.Contains(s, m) {
			return m
		}
	}
	return ""
}

// parsed is a schema parsed by the code under test.
type parsed struct {
	g    chaff.RootGenerator
	err  error
	errs map[string]error
}

func (p parsed) clean() bool { return p.err == nil && len(p.errs) == 0 }
func (p parsed) why() string {
	if p.err != nil {
		return p.err.Error()
	}
	for _, k := range sortedKeys(p.errs) {
		return k + ": " + p.errs[k].Error()
	}
	return ""
}

func parseWith(schema []byte, po *chaff.ParserOptions) parsed {
	if po == nil {
		po = &chaff.ParserOptions{}
	}
	return collect(chaff.ParseSchema(schema, po))
}

func collect(g chaff.RootGenerator, err error) parsed {
	p := parsed{g: g, err: err}
	if g.Metadata != nil && g.Metadata.Errors != nil {
		p.errs = g.Metadata.Errors.CollectErrors()
		if g.Metadata.Errors.HasErrors() != (len(p.errs) > 0) {
			panic(fmt.Sprintf("HasErrors()=%v but %d errors collected", g.Metadata.Errors.HasErrors(), len(p.errs)))
		}
	}
	return p
}

func optsFor(o *GenOpts, seed int64) *chaff.GeneratorOptions {
	var c chaff.GeneratorOptions
	if o != nil {
		c = *o
	}
	c.Rand = crand.NewRandUtil(seed)
	return &c
}

func decideConf(c confCase) Result {
	js := c.Schema
	if len(c.Oracle) > 0 {
		js = c.Oracle
	}
	orc, err := newOracle(js)
	if err != nil {
		panic(harnessError{fmt.Sprintf("generated schema is not valid JSON Schema: %v: %s", err, c.Schema)})
	}
	return decideConfWith(c, orc, nil)
}

func decideConfWith(c confCase, orc *oracle, po *chaff.ParserOptions) Result {
	return decideConfParsed(c, orc, func() parsed { return parseWith(c.Schema, po) })
}

func decideConfParsed(c confCase, orc *oracle, parse func() parsed) Result {
	res := Result{Labels: c.Tags}
	seedGlobals(c.Seed)
	p := parse()
	if !p.clean() {
		if c.Accept && c.MayReport != "" && regexp.MustCompile(c.MayReport).MatchString(p.why()) {
			return res.label("documented limitation")
		}
		if c.Accept {
			res.Viol = fmt.Sprintf("satisfiable schema of supported keywords is reported as unusable: %s", p.why())
			return res
		}
		return res.label("rejected")
	}
	res.Labels = append(res.Labels, "accepted")
	judged := 0
	distinct := map[string]bool{}
	began := time.Now()
	for i := 0; i < c.N; i++ {
		if c.Opts != nil && c.Opts.MaximumGenerationSteps <= 1000 && time.Since(began) > 4*time.Second {
			// keywords that try again inside of each other, at a size at which none can succeed
			res = res.label("slow when minimised, values left out")
			break
		}
		v := p.g.Generate(optsFor(c.Opts, c.Seed+int64(i)*7919))
		js, err := json.Marshal(v)
		if err != nil {
			res.Viol = fmt.Sprintf("generated value cannot be serialised: %v", err)
			return res
		}
		distinct[string(js)] = true
		// a minimised value of an if statement may well be the same each time
		if c.Markers || c.Opts != nil && c.Opts.MaximumGenerationSteps <= 1000 {
			if m := hasGiveUp(js); m != "" {
				if why := orc.check(js); why != "" {
					res.Inconclusive = m
					continue
				}
			}
		}
		judged++
		if why := orc.check(js); why != "" {
			res.Viol = fmt.Sprintf("generated %s: %s", clip(string(js), 300), clip(why, 300))
			return res
		}
	}
	res.Evals = judged
	// minimised values hardly vary, so trying again hardly helps
	if c.SomeOK && judged == 0 && (c.Opts == nil || c.Opts.MaximumGenerationSteps > 1000) {
		res.Viol = fmt.Sprintf("gave up on all of %d values of a schema that a fair share of candidate values satisfies: %s", c.N, res.Inconclusive)
		return res
	}
	if judged > 0 {
		res.Inconclusive = ""
	}
	res.Nontrivial = judged > 0 && len(distinct) > 1
	return res
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
