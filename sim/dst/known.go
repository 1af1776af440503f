package main

import (
	"os"
	"regexp"
	"strings"
)

// Known findings are lines of known_findings.txt:
//
//	known: property=<id> match=<regexp on "class: message"> ;; <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Only "known:" lines have an effect.
type knownList struct{ l []knownOne }

type knownOne struct {
	prop, what string
	re         *regexp.Regexp
}

func loadKnown(path string) (*knownList, error) {
	k := &knownList{}
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return k, nil
	}
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(strings.TrimSpace(l), "known: property=")
		if !ok {
			continue
		}
		prop, rest, _ := strings.Cut(rest, " match=")
		pat, what, _ := strings.Cut(rest, " ;; ")
		re, err := regexp.Compile(pat)
		if err != nil {
			return nil, err
		}
		k.l = append(k.l, knownOne{prop, what, re})
	}
	return k, nil
}

func (k *knownList) has(prop string) bool { return len(k.of(prop)) > 0 }

func (k *knownList) of(prop string) []string {
	var out []string
	for _, o := range k.l {
		if o.prop == prop {
			out = append(out, o.what)
		}
	}
	return out
}

func (k *knownList) match(prop string, f Found) string {
	for _, o := range k.l {
		if o.prop == prop && o.re.MatchString(f.Class+": "+f.Msg) {
			return o.what
		}
	}
	return ""
}
