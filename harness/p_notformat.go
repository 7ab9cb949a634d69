package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// formatText makes a text that is (ok) or is not (!ok) of a format, by construction.
func formatText(t *rapid.T, l, f string, ok bool) string {
	num := func(n string, lo, hi int) int { return intIn(t, l+n, lo, hi) }
	bad := func(xs ...string) string { return pick(t, l+"bad", xs...) }
	label := func(n string) string {
		return rapid.StringMatching(`[a-z0-9]([a-z0-9-]{0,5}[a-z0-9])?`).Draw(t, l+n)
	}
	host := func(n string) string {
		h := label(n)
		for i, k := 0, num(n+"k", 0, 3); i < k; i++ {
			h += "." + label(n+itoa(i))
		}
		return h
	}
	date := func(n string) string {
		y, m := num(n+"y", 1900, 2100), num(n+"m", 1, 12)
		return fmt.Sprintf("%04d-%02d-%02d", y, m, num(n+"d", 1, 28))
	}
	clock := func(n string) string {
		s := fmt.Sprintf("%02d:%02d:%02d", num(n+"h", 0, 23), num(n+"mi", 0, 59), num(n+"s", 0, 59))
		if chance(t, l+n+"frac", 1, 3) {
			s += "." + rapid.StringMatching(`[0-9]{1,6}`).Draw(t, l+n+"fr")
		}
		if chance(t, l+n+"off", 1, 2) {
			return s + fmt.Sprintf("%s%02d:%02d", pick(t, l+n+"sg", "+", "-"), num(n+"oh", 0, 23), num(n+"om", 0, 59))
		}
		return s + "Z"
	}
	duration := func(n string) string {
		s := ""
		switch num(n+"k", 0, 3) {
		case 0:
			return fmt.Sprintf("P%dW", num(n+"w", 0, 99))
		case 1:
			s = pick(t, l+n+"date", "P1Y", "P2M", "P30D", "P1Y2M", "P1Y2M3D", "P4M5D")
		case 2:
			s = pick(t, l+n+"date2", "P1D", "P1Y2M3D", "P9Y") + "T" + pick(t, l+n+"time", "1H", "2M", "3S", "1H2M", "2M3S", "1H2M3S")
		default:
			s = "PT" + pick(t, l+n+"time3", "1H", "2M", "3S", "1H2M", "2M3S", "1H2M3S")
		}
		return s
	}
	hex := func(n string, k int) string {
		return rapid.StringMatching(fmt.Sprintf(`[0-9a-fA-F]{%d}`, k)).Draw(t, l+n)
	}
	uuid := func() string {
		return hex("u1", 8) + "-" + hex("u2", 4) + "-" + hex("u3", 4) + "-" + hex("u4", 4) + "-" + hex("u5", 12)
	}
	ip4 := func() string {
		return fmt.Sprintf("%d.%d.%d.%d", num("o1", 0, 255), num("o2", 0, 255), num("o3", 0, 255), num("o4", 0, 255))
	}
	ip6 := func() string {
		var g []string
		for i := 0; i < 8; i++ {
			g = append(g, fmt.Sprintf("%x", num("g"+itoa(i), 0, 65535)))
		}
		if chance(t, l+"short", 1, 2) {
			from := num("from", 0, 6)
			to := num("to", from+2, 8)
			return strings.Join(g[:from], ":") + "::" + strings.Join(g[to:], ":")
		}
		return strings.Join(g, ":")
	}
	pointer := func() string {
		return rapid.StringMatching(`(/([a-z0-9]|~0|~1|%| ){0,4}){0,3}`).Draw(t, l+"ptr")
	}
	swap := func(s, old, new string) string { return strings.Replace(s, old, new, 1) }
	switch f {
	case "date":
		if ok {
			if chance(t, l+"last", 1, 3) {
				return pick(t, l+"edge", "2024-02-29", "2000-02-29", "1999-12-31", "2023-04-30", "2023-01-31")
			}
			return date("d")
		}
		d := date("d")
		return bad(d+"Z", d[:8]+"32", d[:8]+"00", d[:5]+"13"+d[7:], d[:5]+"00"+d[7:], "2023-02-29", "1900-02-29", "2023-04-31", swap(d, "-", "/"), d[2:], strings.ReplaceAll(d, "-", ""), " "+d)
	case "time":
		if ok {
			return clock("c")
		}
		c := clock("c")
		return bad("24"+c[2:], c[:3]+"60"+c[5:], c[:6]+"61"+c[8:], c[:8], c[:5], swap(c, ":", "-"), c[1:], c+"Z", c[:8]+"+24:00", c[:8]+"+0100", c[:8]+".Z", c[:8]+"+01:60")
	case "date-time":
		if ok {
			return date("d") + pick(t, l+"t", "T", "t") + clock("c")
		}
		d, c := date("d"), clock("c")
		return bad(d+" "+c, d+c, d, c, d[:8]+"32T"+c, d+"T24"+c[2:], d+"T"+c[:8], "2023-02-29T"+c, d+"T"+c+"Z")
	case "duration":
		if ok {
			return duration("d")
		}
		d := duration("d")
		return bad("P", "PT", d[1:], "-"+d, d+"T", "P1", "P1Y2W", "PT1D", "P2D1Y", "PT1M1H", "P1YT", "P1S", "p1y", "P1DT", "P1X", "P1.5D")
	case "period":
		if ok {
			a, b := date("a")+"T"+clock("ac"), date("b")+"T"+clock("bc")
			return pick(t, l+"pk", a+"/"+b, a+"/"+duration("pd"), duration("pd")+"/"+b)
		}
		a := date("a") + "T" + clock("ac")
		return bad(a, a+"/", "/"+a, duration("pd")+"/"+duration("pe"), a+"-"+a, date("b")+"/"+date("c"))
	case "hostname":
		if ok {
			return host("h")
		}
		h := host("h")
		return bad("-"+h, h+"-", h+"..x", "."+h, h+"_x", h+" x", h+"/x", "x.-y."+h, "x-."+h, strings.Repeat("a", 64)+"."+h, h+".ü")
	case "email":
		if ok {
			return rapid.StringMatching(`[a-z0-9]{1,6}([.+_-][a-z0-9]{1,4}){0,2}`).Draw(t, l+"local") + "@" + host("h")
		}
		h := host("h")
		return bad(h, "a"+h, "a@", "a b@"+h, "a@-"+h, "a@@"+h, "a@"+h+"_", ".a@"+h, "a..b@"+h)
	case "ipv4":
		if ok {
			return ip4()
		}
		p := ip4()
		return bad(p+".1", p[:strings.LastIndex(p, ".")], "256"+p[strings.Index(p, "."):], "01"+p[strings.Index(p, "."):], "00"+p[strings.Index(p, "."):], p+".", "."+p, "-1"+p[strings.Index(p, "."):], swap(p, ".", ":"), p+"/8", " "+p, "0x1"+p[strings.Index(p, "."):])
	case "ipv6":
		if ok {
			return ip6()
		}
		return bad("1::2::3", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "12345::", ":::", ":1", "1:", "g::1", ip6()+"%eth0", ip6()+"/64", "["+ip6()+"]", ip4(), " "+ip6())
	case "uri", "iri":
		if ok {
			return pick(t, l+"scheme", "http", "https", "ftp", "file") + "://" + host("h") + pick(t, l+"path", "", "/", "/a/b", "/a?b=c", "/a?b=c#d", ":80/x", "/%20")
		}
		return bad(host("h"), "/a/b", "//"+host("h"), "?a=b", "#a", "://x", "1http://x", "http://[1::2::3]/", "http://a b/", "", "a/b", "http://x/%zz")
	case "uri-reference", "iri-reference":
		if ok {
			return pick(t, l+"ref", "", "#", "#a", "?a=b", "/a", "a/b", "./a", "../a", "//"+host("h")+"/a", "http://"+host("h2"), "a", "mailto:a@b.c")
		}
		return bad("http://[1::2::3]/", "%zz", "a\\b", ":a", "http://a b/", "1a:b")
	case "uri-template":
		if ok {
			return pick(t, l+"tpl", "/a/{b}", "http://"+host("h")+"/{a}/{b}", "{a}", "/a", "/{a}{b}", "/{a,b}", "/{+a}")
		}
		return bad("/{a", "/a}", "/{a{b}}", "/{a}/{", "/{a}}")
	case "json-pointer":
		if ok {
			return pointer()
		}
		return bad("a"+pointer(), "#"+pointer(), pointer()+"/~", "/~2"+pointer(), "0"+pointer(), "/a~")
	case "relative-json-pointer":
		if ok {
			return fmt.Sprint(num("n", 0, 120)) + pick(t, l+"rp", "", "#", pointer())
		}
		return bad("", pointer()+"x", "-1", "01", "0a", "#", "1##", "+1", "1/~2", "0#/a")
	case "uuid":
		if ok {
			return uuid()
		}
		u := uuid()
		return bad(u[1:], u+"0", swap(u, "-", ""), strings.ReplaceAll(u, "-", ""), "g"+u[1:], "{"+u+"}", u[:8]+"_"+u[9:], u[:9]+"-"+u[9:])
	case "regex":
		if ok {
			return pick(t, l+"re", "^a$", "a|b", "(a)", "[a-z]+", "", ".*", "\\d{2}", "a{1,2}")
		}
		return bad("(", "[a", "a)", "*", "+a", "a{2,1}", "[z-a]", "\\")
	}
	panic(harnessError{"format " + f})
}

var notFormats = []string{"date", "time", "date-time", "duration", "period", "hostname", "email", "ipv4", "ipv6", "uri", "iri", "uri-reference", "iri-reference", "uri-template", "json-pointer", "relative-json-pointer", "uuid", "regex"}

// genNotFormat: texts that are and are not of a format; the latter have to come out.
func genNotFormat(t *rapid.T) reachCase {
	f := rapid.SampledFrom(notFormats).Draw(t, "format")
	var members, left []any
	seen := map[string]bool{}
	add := func(s string, keep bool) {
		if seen[s] {
			return
		}
		seen[s] = true
		members = append(members, s)
		if keep {
			left = append(left, s)
		}
	}
	// (a text could be built both ways: the first one counts)
	for i, k := 0, intIn(t, "nok", 1, 4); i < k; i++ {
		add(formatText(t, "ok"+itoa(i), f, true), false)
	}
	for i, k := 0, intIn(t, "nbad", 1, 4); i < k; i++ {
		add(formatText(t, "no"+itoa(i), f, false), true)
	}
	if len(left) == 0 {
		add("(", f != "json-pointer" && f != "uri-reference")
		left = []any{"("}
	}
	n := S{"format": f}
	if chance(t, "typed", 1, 3) {
		n["type"] = "string"
	}
	var s S
	switch intIn(t, "how", 0, 3) {
	case 0:
		var alt []any
		for _, m := range members {
			alt = append(alt, S{"const": m})
		}
		s = S{"anyOf": alt, "not": n}
	case 1:
		s = S{"type": "string", "enum": members, "allOf": []any{S{"not": n}, S{"minLength": 0}}}
	case 2:
		// a second format no member is of
		other := "uuid"
		if f == "uuid" {
			other = "ipv4"
		}
		s = S{"enum": members, "allOf": []any{S{"not": S{"format": other}}, S{"not": n}}}
	default:
		s = S{"type": "string", "enum": members, "not": n}
	}
	c := reachCase{Schema: raw(s), Oracle: raw(S{"enum": left}), Seed: seedOf(t), N: 400, Tags: []string{f}}
	for _, m := range left {
		c.Reach = append(c.Reach, raw(S{"const": m}))
	}
	return c
}

func decideNotFormat(c reachCase) Result {
	r := decideReach(c)
	r.Nontrivial = r.Viol == "" && r.Evals > 1
	return r
}
