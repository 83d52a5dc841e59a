package main

import (
	"fmt"
	"reflect"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

// leaf10 is one value inside the run properties: a field of one of the property structures.
type leaf10 struct {
	field string
	idx   int // index of the field in its structure, -1: the structure has none
	kind  reflect.Kind
}

func leaves10() (out []leaf10) {
	t := reflect.TypeOf(docx.RunProperties{})
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Type.Kind() != reflect.Ptr || f.PkgPath != "" {
			continue
		}
		s := f.Type.Elem()
		n := 0
		for j := 0; j < s.NumField(); j++ {
			g := s.Field(j)
			switch g.Type.Kind() {
			case reflect.String, reflect.Int, reflect.Int64:
				out = append(out, leaf10{f.Name, j, g.Type.Kind()})
				n++
			}
		}
		if n == 0 {
			out = append(out, leaf10{f.Name, -1, reflect.Invalid})
		}
	}
	return
}

// set gives the run properties the value; absent: the property is not there.
func (l leaf10) set(rp *docx.RunProperties, v string, absent bool) {
	if absent {
		return
	}
	f := reflect.ValueOf(rp).Elem().FieldByName(l.field)
	if f.IsNil() {
		f.Set(reflect.New(f.Type().Elem()))
	}
	if l.idx < 0 {
		return
	}
	g := f.Elem().Field(l.idx)
	if l.kind == reflect.String {
		g.SetString(v)
	} else {
		var n int64
		fmt.Sscan(v, &n)
		g.SetInt(n)
	}
}

// values10: two neighbouring runs that differ in one value (every ordered pair of values of every leaf), and in two
// leaves at once; they merge exactly when the compared properties are equal.
func values10(c *Ctx) {
	ls := leaves10()
	c.AddExtra("run property values", len(ls))
	dom := func(l leaf10) []string {
		switch {
		case l.idx < 0:
			return []string{""}
		case l.kind == reflect.String:
			return append([]string{"", " ", "v ", "V", "v", "a|b"}, Words...)
		}
		return append([]string{"0", "1", "-1"}, Numbers...)
	}
	runs := func(a, b *docx.RunProperties) *docx.Paragraph {
		return &docx.Paragraph{Children: []interface{}{
			&docx.Run{RunProperties: a, Children: []interface{}{&docx.Text{Text: "1"}}},
			&docx.Run{RunProperties: b, Children: []interface{}{&docx.Text{Text: "2"}}},
		}}
	}
	test := func(sig, rep string, rule docx.RunMergeRule, p *docx.Paragraph, want bool) {
		c.Trans(1)
		c.Guard(sig, rep, func() {
			np := p.MergeText(rule)
			if got := len(np.Children) == 1; got != want {
				c.Fail(sig, fmt.Sprintf("merged: %v, want %v", got, want), rep)
			}
		})
	}
	Par(len(ls), func(li int) {
		l := ls[li]
		vs := dom(l)
		// a rule over this property, over another one, over both
		other := "Bold"
		if l.field == "Bold" {
			other = "Italic"
		}
		same, others, both := docx.MergeSamePropRunsOf(l.field), docx.MergeSamePropRunsOf(other), docx.MergeSamePropRunsOf(other, l.field)
		for i := -1; i < len(vs); i++ {
			for j := -1; j < len(vs); j++ {
				if c.Failing() {
					return
				}
				mk := func(k int) *docx.RunProperties {
					rp := &docx.RunProperties{}
					if k >= 0 {
						l.set(rp, vs[k], false)
					}
					return rp
				}
				name := func(k int) string {
					if k < 0 {
						return "absent"
					}
					return fmt.Sprintf("%q", vs[k])
				}
				eq := i == j
				rep := fmt.Sprintf("%s[%d]: %s then %s", l.field, l.idx, name(i), name(j))
				test("values: MergeSamePropRuns on "+l.field, rep, docx.MergeSamePropRuns, runs(mk(i), mk(j)), eq)
				test("values: MergeSamePropRunsOf it, "+l.field, rep, same, runs(mk(i), mk(j)), eq)
				test("values: MergeSamePropRunsOf both, "+l.field, rep, both, runs(mk(i), mk(j)), eq)
				test("values: MergeSamePropRunsOf another, "+l.field, rep, others, runs(mk(i), mk(j)), true)
				c.State(rep)
			}
			c.Trace()
		}
	})
	// two leaves: equal in the first, different in the second
	Par(len(ls)*len(ls), func(k int) {
		a, b := ls[k/len(ls)], ls[k%len(ls)]
		if a == b || b.idx < 0 {
			return
		}
		va := dom(a)[min(2, len(dom(a))-1)]
		vb := dom(b)
		for i := 0; i < len(vb) && i < 8; i++ {
			x, y := &docx.RunProperties{}, &docx.RunProperties{}
			a.set(x, va, false)
			a.set(y, va, false)
			b.set(x, vb[i], false)
			b.set(y, vb[(i+1)%8], false)
			z := &docx.RunProperties{}
			a.set(z, va, false)
			b.set(z, vb[i], false)
			rep := fmt.Sprintf("%s[%d]=%q with %s[%d]=%q, then %q", a.field, a.idx, va, b.field, b.idx, vb[i], vb[(i+1)%8])
			test("values of two: differ in "+b.field, rep, docx.MergeSamePropRuns, runs(x, y), false)
			test("values of two: equal "+b.field, rep, docx.MergeSamePropRuns, runs(x, z), true)
			if a.field != b.field {
				test("values of two: only "+a.field, rep, docx.MergeSamePropRunsOf(a.field), runs(x, y), true)
				test("values of two: only "+b.field, rep, docx.MergeSamePropRunsOf(b.field), runs(x, y), false)
			}
		}
	})
}

// bulk10: paragraphs of many runs.
func bulk10(c *Ctx, rules []rule10) {
	t := func(s string) []child10 { return []child10{{'t', s, ""}} }
	var lens []int
	for n := 5; n <= 20; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257)
	Par(len(lens), func(i int) {
		n := lens[i]
		for _, pat := range []string{"s", "sd", "ssd", "sssL", "tx", "txx-", "s/", "sF", "se", "sP"} {
			var in []run10
			for k := 0; k < n; k++ {
				switch pat[k%len(pat)] {
				case 's':
					in = append(in, run10{kind: 'r', kids: t(fmt.Sprint("s", k))})
				case 'd':
					in = append(in, run10{kind: 'r', props: 3, kids: t(fmt.Sprint("d", k))})
				case 't':
					in = append(in, run10{kind: 'r', kids: []child10{{'-', "", ""}}})
				case 'x':
					in = append(in, run10{kind: 'r', kids: []child10{{'t', fmt.Sprint(" x", k, " "), "preserve"}}})
				case '-':
					in = append(in, run10{kind: 'r', kids: []child10{{'t', "a", ""}, {'-', "", ""}, {'t', "b", ""}}})
				case '/':
					in = append(in, run10{kind: 'r', kids: []child10{{'/', "", ""}}})
				case 'L':
					in = append(in, run10{kind: 'L'})
				case 'P':
					in = append(in, run10{kind: 'P'})
				case 'F':
					in = append(in, run10{kind: 'r', instr: "FIELD", kids: t("f")})
				case 'e':
					in = append(in, run10{kind: 'r', kids: t("")})
				}
			}
			check10(c, in, rules)
		}
		// one run with many children
		var ks []child10
		for k := 0; k < n; k++ {
			ks = append(ks, child10{"tt-/D"[k%5], fmt.Sprint(k), ""})
		}
		check10(c, []run10{{kind: 'r', kids: ks}, {kind: 'r', kids: ks}}, rules)
	})
}
