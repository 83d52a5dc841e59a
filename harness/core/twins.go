package core

import "fmt"

// This file enumerates documents in which elements that may stand beside each other, or attributes of one element, are
// equal or nearly equal.

// edit is one way to make an element differ from its twin.
type edit struct {
	name string
	f    func(*Node)
}

// edits lists the single differences an element can have: one attribute set, changed or left out, one kid more.
func edits(name, parent string, depth int) (out []edit) {
	e := Lookup(name, parent)
	for _, a := range e.Attrs {
		a := a
		if vs := Values(a.Type); len(vs) > 1 {
			out = append(out, edit{a.Name + " changed", func(n *Node) { n.Set(a.Name, vs[1]) }})
			if a.Type == "s" {
				out = append(out, edit{a.Name + " in other case", func(n *Node) { n.Set(a.Name, "V1") }})
			}
		}
		if !a.Req {
			out = append(out, edit{a.Name + " left out", func(n *Node) { n.Del(a.Name) }})
		}
	}
	if vs := TextValues(e.Text); e.Text != "" {
		out = append(out, edit{"text changed", func(n *Node) { n.Kids = []*Node{T(vs[1])} }})
	}
	if depth > 0 {
		for _, k := range e.KidNames() {
			k := k
			out = append(out, edit{"with " + k, func(n *Node) {
				for _, x := range n.Kids {
					if x.Name == k || k == "w:instrText" || exclusive(e, x.Name, k) {
						return
					}
				}
				n.Kids = append(n.Kids, Full(k, name, 1))
			}})
		}
	}
	return
}

// TwinDocs calls f with documents in which
//   - an element that may repeat stands 2 and 3 times, all copies equal (bare, with attributes, with kids), or one of
//     them with a single difference, first, in the middle and last, also between other elements;
//   - two different elements of one parent carry the same attributes but for a single difference;
//   - the attributes of one element are all different, or two of them are equal, opposite or swapped.
func TwinDocs(f func(name string, body *Node)) {
	for _, ed := range Edges() {
		e := Lookup(ed.Parent, "")
		for _, s := range e.Seq {
			if s != ed.Child {
				continue
			}
			for _, depth := range []int{-1, 0, 1, 2} {
				mk := func() *Node {
					if depth < 0 {
						x := Bare(ed.Child, ed.Parent)
						if k := Lookup(ed.Child, ed.Parent); k.Text != "" {
							x.Kids = []*Node{T(TextValues(k.Text)[0])}
						}
						return x
					}
					return Full(ed.Child, ed.Parent, depth)
				}
				label := fmt.Sprintf("%s in %s, depth %d", ed.Child, ed.Parent, depth)
				f("twins "+label, Wrap(ed.Path, mk(), mk()))
				f("triplets "+label, Wrap(ed.Path, mk(), mk(), mk()))
				for _, o := range e.Seq {
					if o != ed.Child {
						f("twins "+label+" around "+o, Wrap(ed.Path, mk(), Bare(o, ed.Parent), mk()))
						f("twins "+label+" between "+o, Wrap(ed.Path, Bare(o, ed.Parent), mk(), mk(), Bare(o, ed.Parent)))
					}
				}
				for _, d := range edits(ed.Child, ed.Parent, 1) {
					x := mk()
					d.f(x)
					if x.String() == mk().String() {
						continue
					}
					f("twins "+label+": second "+d.name, Wrap(ed.Path, mk(), x))
					f("twins "+label+": first "+d.name, Wrap(ed.Path, x, mk()))
					f("triplets "+label+": middle "+d.name, Wrap(ed.Path, mk(), x, mk()))
				}
			}
			break
		}
		attrs := func(k string) (m map[string]bool) {
			m = map[string]bool{}
			for _, a := range Lookup(k, ed.Parent).Attrs {
				m[a.Name+"="+a.Type] = true
			}
			return
		}
		mine := attrs(ed.Child)
		for i, o := range e.KidNames() {
			if o == ed.Child || exclusive(e, o, ed.Child) || ed.Child == "w:instrText" || o == "w:instrText" {
				continue
			}
			common := false
			for a := range attrs(o) {
				common = common || mine[a]
			}
			if !common {
				continue
			}
			put := func(name string, x *Node) {
				y := Full(o, ed.Parent, 1)
				for j, k := range e.KidNames() { // in the order of the schema
					if k == ed.Child {
						if j < i {
							f(name, Wrap(ed.Path, x, y))
						} else {
							f(name, Wrap(ed.Path, y, x))
						}
					}
				}
			}
			put("siblings "+ed.Child+" and "+o+", equal", Full(ed.Child, ed.Parent, 1))
			for _, d := range edits(ed.Child, ed.Parent, 0) {
				x := Full(ed.Child, ed.Parent, 1)
				d.f(x)
				put("siblings "+ed.Child+" and "+o+": "+d.name, x)
			}
		}
		el := Lookup(ed.Child, ed.Parent)
		distinct := func() *Node {
			n := Full(ed.Child, ed.Parent, 0)
			for i, a := range el.Attrs {
				switch a.Type {
				case "i":
					n.Set(a.Name, Itoa(100*(i+1)))
				case "s":
					n.Set(a.Name, fmt.Sprintf("w%d", i))
				}
			}
			return n
		}
		if len(el.Attrs) > 1 {
			f("attributes of "+ed.Child+" all different", Wrap(ed.Path, distinct()))
			for i, a := range el.Attrs {
				for j, b := range el.Attrs {
					if i == j || a.Type != b.Type || a.Type != "i" && a.Type != "s" && a.Type != "b" {
						continue
					}
					label := fmt.Sprintf("attributes %s and %s of %s ", a.Name, b.Name, ed.Child)
					vs := []string{}
					switch a.Type {
					case "s":
						vs = append(vs, fmt.Sprintf("w%d", i))
					case "i":
						vs = append(vs, Itoa(100*(i+1)), Itoa(-100*(i+1)), Itoa(100*(i+1)+1), "0")
					case "b":
						vs = append(vs, "1", "0")
					}
					for _, v := range vs {
						f(label+v, Wrap(ed.Path, distinct().Set(b.Name, v)))
						f(label+v+", reversed", Wrap(ed.Path, reversed(distinct().Set(b.Name, v))))
						if a.Type == "b" || v == "0" {
							f(label+v+" both", Wrap(ed.Path, distinct().Set(a.Name, v).Set(b.Name, v)))
						}
						// with nothing else
						n, _ := distinct().Get(a.Name)
						f(label+v+" alone", Wrap(ed.Path, Bare(ed.Child, ed.Parent).Set(a.Name, n).Set(b.Name, v)))
					}
				}
			}
		}
	}
}

// TwinBatches is TwinDocs with up to n documents gathered in one.
func TwinBatches(n int, f func(name string, body *Node)) { Batches(n, TwinDocs, f) }

// Batches gathers up to n of the documents of gen in one.
func Batches(n int, gen func(f func(name string, body *Node)), f func(name string, body *Node)) {
	var cur *Node
	first := ""
	gen(func(name string, b *Node) {
		for _, k := range b.Kids {
			if k.Name == "w:sectPr" {
				f(name, b)
				return
			}
		}
		if cur == nil {
			cur, first = &Node{Name: b.Name, Attrs: b.Attrs}, name
		}
		if cur.Kids = append(cur.Kids, b.Kids...); len(cur.Kids) >= n {
			f("from "+first, cur)
			cur = nil
		}
	})
	if cur != nil {
		f("from "+first, cur)
	}
}

// reversed is the element with its attributes in the opposite order.
func reversed(n *Node) *Node {
	for i, j := 0, len(n.Attrs)-1; i < j; i, j = i+1, j-1 {
		n.Attrs[i], n.Attrs[j] = n.Attrs[j], n.Attrs[i]
	}
	return n
}

// BesideDocs calls f with every value of every attribute (and every text) of every element
//   - beside each element that may stand next to it in the same parent (bare),
//   - beside each other attribute of the element, in both orders.
func BesideDocs(f func(name string, body *Node)) {
	vals := func(ty string) []string {
		switch ty {
		case "s":
			return Words
		case "i":
			return Numbers
		}
		return Values(ty)
	}
	bare := func(k, parent string) *Node {
		x := Bare(k, parent)
		if e := Lookup(k, parent); e.Text != "" {
			x.Kids = []*Node{T(TextValues(e.Text)[0])}
		}
		return x
	}
	for _, ed := range Edges() {
		e, par := Lookup(ed.Child, ed.Parent), Lookup(ed.Parent, "")
		for _, a := range e.Attrs {
			for _, v := range vals(a.Type) {
				label := fmt.Sprintf("%s %s=%q", ed.Child, a.Name, v)
				for _, b := range e.Attrs {
					if b.Name == a.Name || b.Type == "p" {
						continue
					}
					n := Bare(ed.Child, ed.Parent).Set(b.Name, Values(b.Type)[0]).Set(a.Name, v)
					f(label+" with "+b.Name, Wrap(ed.Path, n))
					f(label+" with "+b.Name+", reversed", Wrap(ed.Path, reversed(n.Clone())))
				}
				for _, o := range par.Props {
					if o == ed.Child || o == "w:instrText" || ed.Child == "w:instrText" || exclusive(par, o, ed.Child) {
						continue
					}
					n := Bare(ed.Child, ed.Parent).Set(a.Name, v)
					if par.order(o) < par.order(ed.Child) {
						f(label+" after "+o, Wrap(ed.Path, bare(o, ed.Parent), n))
					} else {
						f(label+" before "+o, Wrap(ed.Path, n, bare(o, ed.Parent)))
					}
				}
			}
		}
	}
}
