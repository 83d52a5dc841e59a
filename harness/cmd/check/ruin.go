package main

import (
	"fmt"
	"reflect"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

// ruin changes everything that can be reached through the public fields of x.
func ruin(x interface{}) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || v.Type() == typDocx || v.Elem().Type().Size() > 0 && seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
			if v.Kind() == reflect.Slice && v.CanSet() && v.Len() > 0 { // shorter, with something else in the room behind
				e := reflect.Zero(v.Type().Elem())
				s := v.Slice(0, v.Len()-1)
				if v.Len()%2 == 0 {
					s = v
				}
				v.Set(reflect.Append(s, e).Slice(0, s.Len()))
			}
		case reflect.String:
			if v.CanSet() {
				v.SetString(v.String() + "!")
			}
		case reflect.Bool:
			if v.CanSet() {
				v.SetBool(!v.Bool())
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if v.CanSet() {
				v.SetInt(v.Int() + 3)
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			if v.CanSet() {
				v.SetUint(v.Uint() + 3)
			}
		}
	}
	walk(reflect.ValueOf(x))
}

// apart01: what is done to one document after building it changes no other one built by the same calls.
func apart01(c *Ctx, ops []Op, depth int) {
	enumerate(len(ops), depth, func(seq []int) bool {
		all := append([]int{0}, seq...)
		rep := "two documents, the first then changed through its fields, and a third: " + names(ops, all)
		ok := false
		c.Guard("apart", rep, func() {
			a, b, z := newW(), newW(), newW()
			if !replay(c, a, ops, all) || a.err != nil || !replay(c, b, ops, all) {
				return
			}
			ruin(&a.d.Document)
			finalC01(c, b, rep)
			if replay(c, z, ops, all) {
				finalC01(c, z, rep)
			}
			ok = true
		})
		return ok && !c.Failing()
	})
}

// apart02: of two documents parsed from the same bytes, changing one leaves the other, and those parsed later, alone.
func apart02(c *Ctx, name string, pkg []byte) {
	c.Guard("apart", name, func() {
		a, b := mustParse(pkg), mustParse(pkg)
		want, err := Save(b)
		if err != nil {
			c.Fail("apart: save", err.Error(), name)
			return
		}
		ruin(&a.Document)
		for i, d := range []*docx.Docx{b, mustParse(pkg)} {
			got, err := Save(d)
			c.Trans(2)
			if err != nil || !sameParts(want, got) {
				c.Fail("a document changes with another one parsed from the same bytes", fmt.Sprint(err), fmt.Sprint(name, " ", i))
			}
		}
		c.Trace()
	})
}
