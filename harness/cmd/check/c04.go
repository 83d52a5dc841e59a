package main

import (
	"bytes"
	"fmt"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() {
	checks["C04"] = check{"model_checking", runC04}
	checks["C05"] = check{"model_checking", runC05}
	checks["C06"] = check{"model_checking", runC06}
}

func allOps() []HOp {
	return []HOp{hPara("S"), hLink("l", "http://l/"), hPic("inline", "png", 2, 1), hPic("anchor", "gif", 1, 2), hShape("inline", "S"), hTable(true),
		hReopen(), hAppend(1), hAppend(0), hSwap(), hSplit(false), hSplit(true), hLoad(true), hLoad(false), hPage()}
}

// addOps are additions with targets and names that coincide with others of the document.
func addOps() []HOp {
	return []HOp{hPara("S"), hLink("l", "http://l/"), hLink("m", "media/image1.png"), hLink("s", "styles.xml"), hLink("o", "http://b/"), hPic("inline", "png", 2, 1), hPic("anchor", "png", 2, 1), hPic("anchor", "gif", 1, 2),
		hShape("inline", "S"), hShape("anchor", "S"), hShape("anchor", "图片"), hShape("inline", "T"), hReopen()}
}

func coreOps() []HOp {
	return []HOp{hPara("S"), hLink("l", "http://l/"), hPic("inline", "jpeg", 2, 3), hReopen(), hAppend(1), hSwap(), hSplit(true), hLoad(true)}
}

func runC04(c *Ctx) {
	c.Rule = "every history up to the depth from every pair of start documents; every package saved after every operation is checked; every relationship target, target mode, content-type form and twin-sibling document, as parsed and as derived by re-opening, appending and splitting; state = saved content"
	chk := func(t *trans) {
		for i := range t.h.s {
			if t.h.s[i] == nil {
				continue
			}
			c.State(string(t.after.pkg[i].Parts["word/document.xml"]) + fmt.Sprint(t.after.pkg[i].Rels))
			for _, b := range t.after.bad[i] {
				c.Fail("after "+t.op.Kind+": "+classOf(b), b, t.rep)
			}
		}
		for _, p := range t.h.pieces {
			raw, err := Save(p.d)
			if err != nil {
				c.Fail("save of a piece", err.Error(), t.rep)
				continue
			}
			_, bad := Consistent(raw)
			for _, b := range bad {
				c.Fail("piece: "+classOf(b), b, t.rep)
			}
		}
	}
	exploreH(c, startsH(), allOps(), c.Pick(3, 4), chk)
	exploreH(c, startsH()[:c.Pick(3, 6)], coreOps(), c.Pick(4, 5), chk)
	exploreH(c, startsH(), addOps(), c.Pick(3, 4), chk)
	exploreBulk(c, chk)
	targets04(c)
	types04(c)
	docs04(c)
	c.Assume("the harness reader (Go archive/zip, strict namespace-resolving XML reader) decides validity", "complete template: styles, theme, font table, content types")
}

// classOf strips the specifics of an inconsistency.
func classOf(b string) string {
	for _, k := range []string{"bad part name", "incomplete relationship", "targets missing part", "does not resolve", "resolves to a", "no content type for part", "[Content_Types].xml"} {
		if strings.Contains(b, k) {
			return k
		}
	}
	return b
}

func runC05(c *Ctx) {
	c.Rule = "every history up to the depth; on every operation the new ids are compared with the ids in use before it"
	chk := func(t *trans) {
		b, a := t.before.pkg[0], t.after.pkg[0]
		if !t.content(c, "content") {
			return
		}
		switch t.op.Kind {
		case "add", "append":
			if d := relsKept(b, a); d != "" {
				c.Fail(t.op.Kind+": existing relationship or media not kept", d, t.rep)
			}
			if t.h.newID != "" {
				if _, used := b.Rel(t.h.newID); used {
					c.Fail("link id reused", t.h.newID, t.rep)
				}
				if r, ok := a.Rel(t.h.newID); !ok || r.Target != t.h.newTo {
					c.Fail("link id not in the document", t.h.newID, t.rep)
				}
			}
			freshDraw(c, t.op.Kind, docPrIDs(b), docPrIDs(a), t.rep)
		case "split", "load":
			freshDraw(c, t.op.Kind, nil, docPrIDs(a), t.rep)
			for _, p := range t.h.pieces {
				if raw, err := Save(p.d); err == nil {
					if q, err := ReadPkg(raw); err == nil {
						freshDraw(c, "piece", nil, docPrIDs(q), t.rep)
					} else {
						c.Fail("piece: "+err.Error(), err.Error(), t.rep)
					}
				}
			}
		case "reopen":
			if fmt.Sprint(b.Rels) != fmt.Sprint(a.Rels) || fmt.Sprint(docPrIDs(b)) != fmt.Sprint(docPrIDs(a)) {
				c.Fail("re-opening changes ids", fmt.Sprint(b.Rels, a.Rels, docPrIDs(b), docPrIDs(a)), t.rep)
			}
		}
	}
	ops := append(allOps(), hInc("图片"), hInc("S"))
	exploreH(c, startsH(), ops, c.Pick(3, 4), chk)
	exploreH(c, startsH()[:c.Pick(3, 6)], append(coreOps(), hInc("图片")), c.Pick(4, 5), chk)
	exploreH(c, startsH(), append(addOps(), hInc("S"), hInc("T")), c.Pick(3, 4), chk)
	exploreBulk(c, chk)
	exploreH(c, edgeStarts(), []HOp{hLink("l", "http://l/"), hPic("inline", "png", 1, 1), hShape("anchor", "S"), hPic("anchor", "gif", 1, 2), hAppend(0), hSplit(true), hReopen()}, c.Pick(2, 3), chk)
	// per-name counter against all other users of the counter
	exploreH(c, startsH()[:1], []HOp{hPara("S"), hInc("图片"), hInc("S"), hInc(""), hShape("inline", "S"), hPic("inline", "png", 1, 1), hSave()}, c.Pick(5, 6), chk)
	c.Assume("drawing ids are the ids of wp:docPr; ids of non-visual properties inside drawings are not claimed")
}

// freshDraw: the ids beyond those in use before are new and distinct.
func freshDraw(c *Ctx, kind string, before, after []string, rep string) {
	used := map[string]int{}
	for _, i := range before {
		used[i]++
	}
	left := map[string]int{}
	for k, v := range used {
		left[k] = v
	}
	seen := map[string]bool{}
	for _, i := range after {
		if left[i] > 0 {
			left[i]--
			continue
		}
		if used[i] > 0 || seen[i] {
			c.Fail(kind+": drawing id used twice", fmt.Sprintf("id %s, before %v, after %v", i, before, after), rep)
			return
		}
		seen[i] = true
	}
}

func runC06(c *Ctx) {
	c.Rule = "every history up to the depth; after every operation every picture of both documents is resolved to the bytes of its media part; picture sizes over several orders of magnitude and many pictures"
	chk := func(t *trans) {
		t.content(c, "pictures")
		b, a := t.before.pkg[0], t.after.pkg[0]
		switch t.op.Kind {
		case "bad":
			if t.h.refuse == nil {
				c.Fail("garbage accepted as a picture", t.op.Name, t.rep)
			}
			if d := partsDiff(b, a); d != "" {
				c.Fail("refused picture changed the document", d, t.rep)
			}
		case "add", "append", "none":
			if d := relsKept(b, a); d != "" {
				c.Fail(t.op.Kind+": media or relationship not kept", d, t.rep)
			}
		}
	}
	ops := []HOp{hPara("S"), hPic("inline", "png", 2, 1), hPic("inline", "png", 2, 1), hPic("anchor", "gif", 1, 2), hPic("anchor", "jpeg", 2, 3), hPicFrom("inline", "gif", 9), hPicFrom("anchor", "png", 18),
		hTable(true), hLink("l", "media/image1.png"), hReopen(), hAppend(1), hAppend(0), hSwap(), hSplit(false), hSplit(true), hLoad(true), hLoad(false)}
	for i := 0; i < 9; i++ {
		ops = append(ops, hBad([]string{"inline", "anchor"}[i%2], i))
	}
	exploreH(c, startsH(), ops[:17], c.Pick(3, 4), chk)
	exploreH(c, startsH(), ops, 2, chk)
	exploreH(c, startsH()[:c.Pick(3, 6)], []HOp{hPara("S"), hPic("inline", "png", 2, 1), hPic("anchor", "gif", 2, 2), hReopen(), hAppend(1), hSplit(true), hLoad(true)}, c.Pick(4, 5), chk)
	exploreBulk(c, chk)
	// documents loaded from one media list, however much room it has
	for spare := 0; spare <= 2; spare++ {
		for have := 0; have <= 2; have++ {
			enumerate(5, c.Pick(5, 6), func(seq []int) bool {
				rep := fmt.Sprintf("two documents loaded from one media list (%d media, room for %d more), operations %v (0/1 add to first/second, 2 caller appends to its list, 3/4 save and re-open first/second)", have, spare, seq)
				ok := false
				c.Guard("loaded", rep, func() {
					list := make([]docx.Media, 0, have+spare)
					for i := 0; i < have; i++ {
						list = append(list, docx.Media{Name: fmt.Sprintf("own%d.png", i), Data: Img("png", 1, 1, i)})
					}
					var ms [2]*mdoc
					for i := range ms {
						ms[i] = &mdoc{mini(docx.LoadBodyItems(nil, list)), nil}
					}
					mine := list
					for step, o := range seq {
						if o == 2 {
							mine = append(mine, docx.Media{Name: fmt.Sprintf("mine%d.png", step), Data: Img("png", 1, 1, 90+step)})
							continue
						}
						h := &H{s: [2]*mdoc{ms[o%3], nil}}
						if o >= 3 {
							hReopen().Do(h)
							ms[o%3] = h.s[0]
						} else {
							hPara("").Do(h)
							hPic("inline", []string{"png", "gif"}[step%2], 2, 10*o+step).Do(h)
						}
						if h.err != nil {
							c.Fail("loaded: error", h.err.Error(), rep)
							return
						}
					}
					c.Trans(len(seq))
					c.Trace()
					for i, m := range ms {
						p, _, err := savePkg(m.d)
						if err != nil {
							c.Fail("loaded: save", err.Error(), rep)
							return
						}
						if w, g := Render(AbsNodes(m.items)), Render(p.Abs()); w != g {
							c.Fail("loaded: pictures of a document loaded from a shared media list", fmt.Sprintf("document %d: %s", i, FirstDiff(w, g)), rep)
						}
						for k := 0; k < have; k++ {
							if !bytes.Equal(p.Parts[fmt.Sprintf("word/media/own%d.png", k)], Img("png", 1, 1, k)) {
								c.Fail("loaded: given media changed", fmt.Sprint(k), rep)
							}
						}
					}
					for k, m := range mine {
						t, n := k, fmt.Sprintf("own%d.png", k)
						if k >= have {
							t, n = -1, m.Name
						}
						if t >= 0 && !bytes.Equal(m.Data, Img("png", 1, 1, t)) || m.Name != n || t < 0 && !strings.HasPrefix(m.Name, "mine") {
							c.Fail("loaded: the media list of the caller is changed", m.Name, rep)
						}
					}
					ok = true
				})
				return ok && !c.Failing()
			})
		}
	}
	c.Assume("the bytes given for a picture are not changed by the caller afterwards", "pictures are small generated png, gif and jpeg images; the refused inputs are nine damaged or foreign ones")
}
