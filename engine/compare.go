package main

import (
	"fmt"
	"strings"
)

// Level selects how much of the observation is judged.
type Level int

const (
	LVerdict Level = iota // verdict and the set of offending fields/elements
	LFull                 // everything an error carries
)

// judgeGo compares one observation with the reference. "" means conforming.
func judgeGo(c *Case, o *Obs, lvl Level) string {
	if o == nil {
		return "no observation recorded for the case"
	}
	if o.Err != "" {
		return "" // the message could not be built; counted separately
	}
	if o.P != "" {
		return "panic: " + trunc(o.P, 600)
	}
	if o.NoV {
		return "generated type has no Validate/ValidateAll methods"
	}
	if o.Mut != "" {
		return o.Mut
	}
	if o.ND != "" {
		return "repeating the validation gives a different result: " + trunc(o.ND, 600)
	}
	ctx := &Ctx{Now: c.now(), Go: true}
	var e *Expect
	if c.NilR {
		e = &Expect{}
	} else {
		e = ctx.evalMsg(c.V)
	}
	if o.V == nil && e.must() {
		return "Validate accepted a message that violates its rules: " + showExp(e)
	}
	if o.V != nil && !e.may() {
		return "Validate rejected a conforming message: " + o.V.S
	}
	if (o.V == nil) != (o.A == nil) {
		return fmt.Sprintf("Validate and ValidateAll disagree: %s / %s", showObs(o.V), showObs(o.A))
	}
	if o.V == nil {
		return ""
	}
	if d := matchMulti(e, o.A, lvl); d != "" {
		return "ValidateAll: " + d + "; expected " + showExp(e) + "; got " + showObs(o.A)
	}
	if d := matchOne(e, o.V, lvl, true); d != "" {
		return "Validate: " + d + "; expected one of " + showExp(e) + "; got " + showObs(o.V)
	}
	if lvl == LFull && len(o.A.M) > 0 && !usesMap(c.V) {
		f := o.A.M[0]
		if f.F != o.V.F || f.R != o.V.R || f.K != o.V.K {
			return "Validate does not return the first error of ValidateAll: " + showObs(o.V) + " / " + showObs(f)
		}
	}
	return ""
}

func usesMap(v *MVal) bool {
	if v == nil || v.Nil {
		return false
	}
	for f, x := range v.F {
		switch y := x.(type) {
		case []MapEnt:
			if len(y) > 1 {
				return true
			}
			for _, e := range y {
				if mv, ok := e.V.(*MVal); ok && usesMap(mv) {
					return true
				}
			}
		case []any:
			for _, e := range y {
				if mv, ok := e.(*MVal); ok && usesMap(mv) {
					return true
				}
			}
		case *MVal:
			if usesMap(y) {
				return true
			}
		}
		_ = f
	}
	return false
}

// matchMulti matches a list of all violations.
func matchMulti(e *Expect, o *ObsErr, lvl Level) string {
	if !o.IsM {
		return "not a multi error (" + o.T + ")"
	}
	if lvl == LFull {
		if o.T != e.M.GoName+"MultiError" {
			return "type " + o.T + ", want " + e.M.GoName + "MultiError"
		}
		var ss []string
		for _, m := range o.M {
			ss = append(ss, m.S)
		}
		if o.S != strings.Join(ss, "; ") {
			return "Error() is not the joined list: " + o.S
		}
	}
	used := make([]bool, len(e.V))
	for _, x := range o.M {
		ok := false
		why := ""
		for pass := 0; pass < 2 && !ok; pass++ {
			for i := range e.V {
				if used[i] || e.V[i].Opt != (pass == 1) {
					continue
				}
				if d := matchViol(e, &e.V[i], x, lvl, false); d == "" {
					used[i], ok = true, true
					break
				} else {
					if x.F == e.V[i].Field {
						why = d
					}
				}
			}
		}
		if !ok {
			return "unexpected error " + showObs(x) + " " + why
		}
	}
	for i := range e.V {
		if !used[i] && !e.V[i].Opt {
			return "missing violation of " + e.V[i].Field + " (" + e.V[i].Tag + ")"
		}
	}
	return ""
}

// matchOne matches a single returned error against any expected one.
func matchOne(e *Expect, o *ObsErr, lvl Level, single bool) string {
	why := ""
	for i := range e.V {
		d := matchViol(e, &e.V[i], o, lvl, single)
		if d == "" {
			return ""
		}
		if o.F == e.V[i].Field || why == "" {
			why = d
		}
	}
	return "error matches no violation: " + why
}

func matchViol(e *Expect, v *Viol, o *ObsErr, lvl Level, single bool) string {
	if !o.Has {
		return "not a validation error: " + o.T
	}
	if o.F != v.Field {
		return fmt.Sprintf("field %q, want %q", o.F, v.Field)
	}
	if v.Cause == CNested {
		if o.C == nil {
			return "no cause for embedded message error"
		}
		if single || v.Nested.M.GoLegacy {
			if d := matchOne(v.Nested, o.C, lvl, true); d != "" {
				return "cause: " + d
			}
		} else if d := matchMulti(v.Nested, o.C, lvl); d != "" {
			return "cause: " + d
		}
	} else if o.C != nil && o.C.Has {
		return "unexpected validation cause"
	}
	if lvl != LFull {
		return ""
	}
	if v.Cause == CSome && o.C == nil {
		return "cause missing"
	}
	if v.Cause == CNone && o.C != nil {
		return "unexpected cause " + o.C.S
	}
	if o.K != v.Key {
		return fmt.Sprintf("Key()=%v, want %v", o.K, v.Key)
	}
	if v.Prefix && !strings.HasPrefix(o.R, v.Reason) || !v.Prefix && o.R != v.Reason {
		return fmt.Sprintf("reason %q, want %q", o.R, v.Reason)
	}
	if o.T != e.M.GoName+"ValidationError" || o.N != o.T {
		return fmt.Sprintf("type %s / ErrorName %s, want %sValidationError", o.T, o.N, e.M.GoName)
	}
	key, cause := "", ""
	if o.K {
		key = "key for "
	}
	if o.C != nil {
		cause = " | caused by: " + o.C.S
	}
	if want := fmt.Sprintf("invalid %s%s.%s: %s%s", key, e.M.GoName, o.F, o.R, cause); o.S != want {
		return fmt.Sprintf("Error() %q, want %q", o.S, want)
	}
	return ""
}

func showExp(e *Expect) string {
	var p []string
	for _, v := range e.V {
		s := v.Field + ":" + v.Tag
		if v.Opt {
			s += "?"
		}
		if v.Nested != nil {
			s += showExp(v.Nested)
		}
		p = append(p, s)
		if len(p) > 12 {
			p = append(p, "…")
			break
		}
	}
	return "[" + strings.Join(p, " ") + "]"
}

func showObs(o *ObsErr) string {
	if o == nil {
		return "nil"
	}
	return trunc(fmt.Sprintf("%q", o.S), 500)
}
