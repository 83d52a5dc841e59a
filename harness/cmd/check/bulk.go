package main

import (
	"fmt"

	. "verif/harness/core"
)

// Operations that add many or big things at once: histories over them reach what depends on how much there is.

// hTimes repeats an operation with varying arguments.
func hTimes(n int, name, kind string, mk func(i int) HOp) HOp {
	ops := make([]HOp, n)
	for i := range ops {
		ops[i] = mk(i)
	}
	return HOp{fmt.Sprintf("%d x %s", n, name), kind, func(h *H) bool {
		for i := range ops {
			if !ops[i].Do(h) {
				return false
			}
			if h.err != nil {
				return true
			}
		}
		h.newID = ""
		return true
	}}
}

func hManyLinks(n int) HOp {
	return hTimes(n, "AddLink", "add", func(i int) HOp { return hLink("l", fmt.Sprintf("http://m/%d", i)) })
}

func hManyPics(n int) HOp {
	return hTimes(n, "AddDrawing", "add", func(i int) HOp {
		return hPic([]string{"inline", "anchor"}[i/2%2], []string{"png", "gif"}[i%2], 1+i/3%2, 1000+i)
	})
}

func hManyShapes(n int) HOp {
	return hTimes(n, "AddShape", "add", func(i int) HOp { return hShape([]string{"inline", "anchor"}[i%2], "S") })
}

func hManyParas(n int) HOp {
	return hTimes(n, "AddParagraph", "none", func(i int) HOp { return hPara([]string{"S", "x"}[i%2]) })
}

// hBig adds a picture whose file is n bytes or more.
func hBig(kind, format string, n, tag int) HOp {
	return HOp{fmt.Sprintf("Add%sDrawing(%s#%d of %d bytes)", kind, format, tag, n), "add", func(h *H) bool {
		p, m := h.s[0].lastPara()
		if p == nil {
			return false
		}
		w := &W{ip: p, mp: m}
		opPicBytes(kind, format, 2, tag, BigImg(format, 2, 1, tag, n)).Do(w)
		h.err = w.err
		return true
	}}
}

// bulkOps is the alphabet of the histories over many things.
func bulkOps() []HOp {
	return []HOp{hPara("S"), hManyLinks(150), hManyPics(260), hManyShapes(140), hManyParas(300), hReopen(), hAppend(1), hAppend(0), hSwap(), hSplit(false), hSplit(true), hLoad(true)}
}

// bulkStarts are documents that begin with a paragraph, and an odd one.
func bulkStarts() []start {
	return []start{
		{"S|built", func() *H { h := startsH()[0].mk(); hPara("S").Do(h); return h }},
		startsH()[1],
	}
}

// exploreBulk enumerates histories over many and over big things.
func exploreBulk(c *Ctx, chk func(*trans)) {
	exploreH(c, bulkStarts(), bulkOps(), c.Pick(2, 3), chk)
	exploreH(c, bulkStarts(), []HOp{hBig("inline", "png", 70_000, 1), hBig("anchor", "gif", 1_200_000, 2), hBig("inline", "jpeg", 5_000_000, 3), hReopen(), hAppend(1), hAppend(0), hSwap(), hSplit(true), hLoad(true)}, c.Pick(2, 3), chk)
}
