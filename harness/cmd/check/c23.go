package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C23"] = check{"model_checking", runC23} }

var (
	int23   = regexp.MustCompile(`^[+-]?[0-9]+$`)
	frac23  = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)$`)
	exp23   = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)[eE][+-]?[0-9]+$`)
	lead23  = regexp.MustCompile(`^\s*([+-]?[0-9]+)`)
	start23 = regexp.MustCompile(`^\s*[+-]?\.?[0-9]`)
)

// want23 gives the values s may be read as and whether an error may be reported.
func want23(s string) (vals []int64, mayErr bool) {
	trunc := func(r *big.Rat) ([]int64, bool) {
		q := new(big.Int).Quo(r.Num(), r.Denom())
		if q.IsInt64() {
			return []int64{q.Int64()}, false
		}
		return nil, true
	}
	switch {
	case int23.MatchString(s) || frac23.MatchString(s):
		r, _ := new(big.Rat).SetString(s)
		return trunc(r)
	case exp23.MatchString(s):
		i := strings.IndexAny(s, "eE")
		if e, err := strconv.Atoi(s[i+1:]); err != nil || e > 400 || e < -400 {
			r, _ := new(big.Rat).SetString(s[:i])
			if r.Sign() == 0 || e < 0 {
				return []int64{0}, true
			}
			return nil, true // out of range
		}
		r, _ := new(big.Rat).SetString(s)
		return trunc(r)
	}
	if m := lead23.FindStringSubmatch(s); m != nil { // a leading integer, then something else
		r, _ := new(big.Rat).SetString(m[1])
		v, e := trunc(r)
		if strings.ContainsAny(s, "xXpP_") || s[0] != m[1][0] { // hexadecimal floats, digit separators, leading white space: may be read or refused
			if f, err := strconv.ParseFloat(s, 64); err == nil && math.Abs(f) < 1<<63 {
				v = append(v, int64(f))
			}
			e = true
		}
		return v, e
	}
	if start23.MatchString(s) { // .5pt
		return []int64{0}, true
	}
	return nil, true
}

func runC23(c *Ctx) {
	c.Rule = "every string up to the length over the alphabet and every boundary integer with every prefix and suffix, read by GetInt and GetInt64 and compared with an exact rational reference reader"
	one := func(s string) {
		vals, mayErr := want23(s)
		v64, e64 := docx.GetInt64(s)
		v, e := docx.GetInt(s)
		c.Trans(2)
		for i, r := range []struct {
			v   int64
			err error
		}{{v64, e64}, {int64(v), e}} {
			fn := []string{"GetInt64", "GetInt"}[i]
			if r.err != nil {
				if !mayErr {
					c.Fail(fn+" refuses a number", fmt.Sprintf("%v, want %v", r.err, vals), strconv.Quote(s))
				}
				continue
			}
			ok := false
			for _, w := range vals {
				ok = ok || w == r.v
			}
			if !ok {
				c.Fail(fn+" reads a wrong number", fmt.Sprintf("%d, want %v (error allowed: %v)", r.v, vals, mayErr), strconv.Quote(s))
			}
		}
		c.Trace()
	}
	alpha := []string{"0", "1", "7", "9", "+", "-", ".", "e", "x", "p", " ", "_", "i", "n", "f", "a", "t", "%", "€", "\n"}
	n := c.Pick(5, 6)
	Par(len(alpha)*len(alpha), func(k int) {
		var rec func(s string, d int)
		rec = func(s string, d int) {
			c.State(s)
			one(s)
			if d == 0 {
				return
			}
			for _, a := range alpha {
				rec(s+a, d-1)
			}
		}
		p := alpha[k/len(alpha)] + alpha[k%len(alpha)]
		rec(p, n-2)
	})
	one("")
	for _, a := range alpha {
		one(a)
	}
	// every boundary integer with every prefix and suffix
	var bs []string
	for b := uint(0); b <= 64; b++ {
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Lsh(big.NewInt(1), b)
			x.Add(x, big.NewInt(d))
			bs = append(bs, x.String(), "-"+x.String())
		}
	}
	for x, i := big.NewInt(1), 0; i < 40; i++ {
		bs = append(bs, x.String(), "-"+x.String(), new(big.Int).Sub(x, big.NewInt(1)).String())
		x = new(big.Int).Mul(x, big.NewInt(10))
	}
	for _, b := range bs {
		if strings.HasPrefix(b, "--") {
			continue
		}
		for _, pre := range []string{"", "+", "0", "000000000000000000000", " "} {
			if pre == "+" && b[0] == '-' || pre != "+" && pre != "" && b[0] == '-' && pre != " " {
				continue
			}
			for _, suf := range []string{"", "pt", "%", " ", "px ", ".", ".0", ".5", ".9", ".49999", "e0", "e1", "e19", "e308", "e400", "E-3", "emu", "e", "\x00", "٣"} {
				// fractions are read in double precision
				if f, _ := strconv.ParseFloat(b, 64); math.Abs(f) >= 1<<46 && (strings.HasPrefix(suf, ".") || strings.HasPrefix(suf, "e") || strings.HasPrefix(suf, "E-")) && suf != "emu" && suf != "e" {
					if math.Abs(f) <= 1<<63 || suf == "E-3" {
						continue
					}
				}
				s := pre + b + suf
				c.State(s)
				one(s)
			}
		}
	}
	for _, s := range []string{"Infinity", "-Infinity", "+inf", "NaN", "nan", "infinite", "0x1p4", "0x7fffffffffffffffp0", "0x1p63", "0x1p1000", "1_000", "1,5", "1e9999999999", "1e-9999999999", strings.Repeat("9", 400), "0." + strings.Repeat("9", 10), strings.Repeat("0", 400) + "7"} {
		one(s)
	}
	// byte and string conversions: every byte, every length class, aliasing is by design
	for l := 0; l <= 257; l++ {
		for _, b0 := range []byte{0, 1, 'a', 0x80, 0xff} {
			b := bytes.Repeat([]byte{b0}, l)
			for i := range b {
				b[i] += byte(i)
			}
			want := string(b)
			if docx.BytesToString(b) != want {
				c.Fail("BytesToString", fmt.Sprintf("%q", want), fmt.Sprint(l))
			}
			got := docx.StringToBytes(want)
			if string(got) != want || len(got) != l || cap(got) != l {
				c.Fail("StringToBytes", fmt.Sprintf("%q: len %d cap %d", got, len(got), cap(got)), fmt.Sprint(l))
			}
			if l > 2 { // of parts of strings and slices
				if s := docx.BytesToString(b[1 : l-1]); s != want[1:l-1] {
					c.Fail("BytesToString", s, "part")
				}
				if g := docx.StringToBytes(want[1 : l-1]); string(g) != want[1:l-1] || cap(g) != l-2 {
					c.Fail("StringToBytes", string(g), "part")
				}
			}
			c.Trans(2)
		}
	}
	if s := docx.BytesToString(nil); s != "" {
		c.Fail("BytesToString", s, "nil")
	}
	if b := docx.StringToBytes(""); len(b) != 0 {
		c.Fail("StringToBytes", "", "empty")
	}
	c.Assume("fractions and exponents of integer part above 2^46 are read with double precision and not compared")
}
