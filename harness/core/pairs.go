package core

// This file enumerates documents that combine two far-apart features of the vocabulary.

// Feature is one element in its place: the path from the body to it.
type Feature []string

// Features lists one feature per edge of the grammar (the shortest path to it); what stands below an inline drawing
// is listed below an anchored one too.
func Features() (out []Feature) {
	for _, e := range Edges() {
		f := append(append(Feature{}, e.Path...), e.Child)
		out = append(out, f)
		for i, n := range f {
			if n == "wp:inline" && i+1 < len(f) && f[i+1] == "a:graphic" {
				g := append(Feature{}, f...)
				g[i] = "wp:anchor"
				out = append(out, g)
			}
		}
	}
	return
}

// Below reports whether the feature stands below an element of that name (or is one).
func (f Feature) Below(name string) bool {
	for _, n := range f {
		if n == name {
			return true
		}
	}
	return false
}

// shell builds the element with its attributes (all or only the required ones).
func shell(name, parent string, rich bool) *Node {
	if rich {
		return Min(name, parent)
	}
	return Bare(name, parent)
}

// order is the position of a kid in its parent.
func (e *Elem) order(k string) int {
	for i, x := range e.Props {
		if x == k {
			return i
		}
	}
	return len(e.Props)
}

// Combine builds the smallest document that has both features under common ancestors, or nil if they exclude each
// other or one contains the other. Elements that may stand next to each other (runs, say) are shared.
func Combine(a, b Feature, rich bool) *Node {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i == len(a) || i == len(b) {
		return nil
	}
	par := ""
	if i > 1 {
		par = a[i-2]
	}
	e := Lookup(a[i-1], par)
	if exclusive(e, a[i], b[i]) {
		return nil
	}
	if e.order(a[i]) > e.order(b[i]) {
		a, b = b, a
	}
	branch := func(f Feature) *Node {
		var n *Node
		for j := len(f) - 1; j >= i; j-- {
			x := shell(f[j], f[j-1], rich)
			if n != nil {
				x.Kids = []*Node{n}
			} else if k := Lookup(f[j], f[j-1]); k.Text != "" {
				x.Kids = []*Node{T(TextValues(k.Text)[0])}
			}
			n = x
		}
		return n
	}
	kids := []*Node{branch(a), branch(b)}
	for j := i - 1; j >= 0; j-- {
		p := ""
		if j > 0 {
			p = a[j-1]
		}
		n := shell(a[j], p, rich)
		n.Kids = kids
		kids = []*Node{n}
	}
	return kids[0]
}

// PairDocs calls f with every combination of two features accepted by keep.
func PairDocs(rich bool, keep func(a, b Feature) bool, f func(name string, body *Node)) {
	fs := Features()
	for i, a := range fs {
		for _, b := range fs[:i] {
			if keep != nil && !keep(a, b) {
				continue
			}
			if d := Combine(a, b, rich); d != nil {
				f("pair "+pathName(a)+" + "+pathName(b), d)
			}
		}
	}
}

func pathName(f Feature) string {
	if len(f) > 2 {
		return f[len(f)-2] + "/" + f[len(f)-1]
	}
	return f[len(f)-1]
}
