package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

func init() {
	register(&prop{id: "C10", level: "model_checking",
		what:   "one state per history (sequence of operations on one document, its models and row objects); one transition per operation executed on the library; one validated trace per history whose every answer, whose rows and whose earlier results were compared with those of a fresh model. Every history up to the depth bound over the operation alphabet is executed, on every model of the zoo; long repetitions follow.",
		assume: []string{"single-threaded histories (C11 decides concurrency)"},
		run:    runC10})
}

type hist struct {
	c     *Ctx
	it    *zooItem
	xml   string
	base  []Res // fresh results
	p     *models.PMML
	m     evaluation.Model
	objs  []evaluation.DataRow // long-lived row objects
	pool  evaluation.DataRow   // one row object refilled again and again
	held  []heldRes
	verr  bool
	trace []string
}

type heldRes struct {
	out  evaluation.DataRow
	want Res
}

func (h *hist) fail(f string, a ...interface{}) {
	h.c.Fail(h.xml, "after %v: %s", h.trace, fmt.Sprintf(f, a...))
}

func (h *hist) build() {
	p, err := decode(h.xml)
	if err != nil {
		h.fail("decode: %v", err)
	}
	h.p = p
	h.m = h.mustModel()
	h.objs = nil
	for _, r := range h.it.rows {
		h.objs = append(h.objs, dataRow(r))
	}
}

func (h *hist) mustModel() evaluation.Model {
	m, err := modelOf(h.p)
	if err != nil {
		h.fail("building the model: %v", err)
	}
	return m
}

func (h *hist) eval(m evaluation.Model, i int, obj evaluation.DataRow) {
	out, err := m.Evaluate(obj)
	h.c.r.Transitions++
	got := toRes(out, err)
	if !identical(got, h.base[i]) {
		h.fail("row %d %v gives %v; a fresh model gives %v", i, h.it.rows[i], got, h.base[i])
	}
	if len(obj) != len(h.it.rows[i]) {
		h.fail("scoring changed the caller's row to %v", obj)
	}
	for k, v := range h.it.rows[i] {
		if w, ok := obj[k]; !ok || !sameRaw(w.Raw(), v) {
			h.fail("scoring changed field %s of the caller's row", k)
		}
	}
	h.held = append(h.held, heldRes{out, got})
	if len(h.held) > 8 {
		h.held = h.held[1:]
	}
}

func (h *hist) refill(i int) {
	if h.pool == nil {
		h.pool = evaluation.DataRow{}
	}
	refill(h.pool, h.it.rows[i])
}

// refill makes an existing row object hold the given row.
func refill(obj evaluation.DataRow, r Row) {
	for k := range obj {
		if _, ok := r[k]; !ok {
			delete(obj, k)
		}
	}
	for k, v := range r {
		obj[k] = evaluation.NewValue(v)
	}
}

func (h *hist) checkHeld() {
	for _, x := range h.held {
		if x.want.Kind == resOut && !identical(toRes(x.out, nil), x.want) {
			h.fail("an earlier result changed from %v to %v", x.want, toRes(x.out, nil))
		}
	}
}

type hop struct {
	name string
	do   func(h *hist)
}

func histOps(rows int) []hop {
	var ops []hop
	for i := 0; i < rows; i++ {
		ops = append(ops, hop{fmt.Sprint("score row ", i), func(h *hist) { h.eval(h.m, i, h.objs[i]) }})
	}
	ops = append(ops,
		// a caller that keeps one row object and refills it
		hop{"refill a shared row with row 0 and score it", func(h *hist) { h.refill(0); h.eval(h.m, 0, h.pool) }},
		hop{"refill the shared row with row 4 and score it", func(h *hist) { h.refill(4); h.eval(h.m, 4, h.pool) }},
		hop{"score a bad row", func(h *hist) {
			h.m.Evaluate(dataRow(Row{"temp": "warm", "amount": []int{1}, "outlook": struct{}{}}))
			h.c.r.Transitions++
		}},
		hop{"score an empty and a nil row", func(h *hist) {
			h.m.Evaluate(dataRow(Row{}))
			h.m.Evaluate(nil)
			h.c.r.Transitions += 2
		}},
		hop{"scribble over the last result", func(h *hist) {
			if n := len(h.held); n > 0 && h.held[n-1].out != nil {
				out := h.held[n-1].out
				h.held = h.held[:n-1]
				for k := range out {
					out[k] = evaluation.NewValue(-12345.0)
				}
				out["temp"] = evaluation.NewValue(1e9)
				out["extra"] = evaluation.NewValue("x")
			}
		}},
		hop{"verify", func(h *hist) {
			err := h.m.Verify()
			h.c.r.Transitions++
			if (err != nil) != h.verr {
				h.fail("Verify gives %v", err)
			}
		}},
		hop{"validate and compile", func(h *hist) {
			if err := h.m.Validate(); err != nil {
				h.fail("Validate gives %v", err)
			}
			if err := h.m.Compile(); err != nil {
				h.fail("Compile gives %v", err)
			}
			h.c.r.Transitions += 2
		}},
		hop{"rebuild from the document", func(h *hist) { h.m = h.mustModel(); h.c.r.Transitions++ }},
		hop{"build and use a sibling", func(h *hist) {
			m := h.mustModel()
			h.c.r.Transitions++
			h.eval(m, 0, h.objs[0])
			h.eval(m, len(h.base)-1, h.objs[len(h.base)-1])
			m.Verify()
		}},
	)
	return ops
}

func runC10(c *Ctx) {
	c10Near(c)
	c10Values(c)
	items := zoo()
	depth := 3
	if c.Thorough {
		depth = 4
	}
	nrows := 4
	for zi := range items {
		it := &items[zi]
		// a small row set for the exhaustive part: one complete, one partial, one empty-ish, and another complete one that only the shared row object takes
		small := zooItem{it.name, it.doc, []Row{it.rows[0], it.rows[2], it.rows[4], it.rows[5], it.rows[1]}}
		vd := it.verification()
		x := vd.XML()
		var base, baseAll []Res
		var verr bool
		prep := func() {
			if base != nil {
				return
			}
			fresh := func(r Row) Res {
				m, err := build(x)
				if err != nil {
					c.Fail(x, "the document is refused: %v", err)
				}
				return score(m, r)
			}
			for _, r := range small.rows {
				base = append(base, fresh(r))
			}
			for _, r := range it.rows {
				baseAll = append(baseAll, fresh(r))
			}
			m, _ := build(x)
			verr = m.Verify() != nil
			c.Outcome(fmt.Sprintf("%s verifies: %v", it.name, !verr))
		}
		ops := histOps(nrows)
		for d := 1; d <= depth; d++ {
			vectors(d, len(ops), func(v []int) {
				c.Case(fmt.Sprintf("%s %v", it.name, v), func() {
					prep()
					h := &hist{c: c, it: &small, xml: x, base: base, verr: verr}
					h.build()
					for _, o := range v {
						h.trace = append(h.trace, ops[o].name)
						ops[o].do(h)
					}
					for i := range small.rows {
						h.eval(h.m, i, h.objs[i])
					}
					if (h.m.Verify() != nil) != verr {
						h.fail("Verify changes its mind")
					}
					h.checkHeld()
					c.Bound("history length, all histories", d)
					c.r.States++
					c.r.Validated++
					if d == depth {
						c.Sample(map[string]interface{}{"model": it.name, "history": h.trace})
					}
				})
			})
		}
		// Long repetitions of each single operation and of the whole cycle.
		reps := 2000
		if c.Thorough {
			reps = 40000
		}
		for o := -1; o < len(ops); o++ {
			c.Case(fmt.Sprintf("%s long %d", it.name, o), func() {
				prep()
				h := &hist{c: c, it: &small, xml: x, base: base, verr: verr}
				h.build()
				for k := 0; k < reps; k++ {
					op := o
					if o < 0 {
						op = k % len(ops)
					}
					h.trace = []string{fmt.Sprintf("%d times", k), ops[op].name}
					ops[op].do(h)
					if k%97 == 0 {
						h.eval(h.m, k%nrows, h.objs[k%nrows])
						h.checkHeld()
					}
				}
				for i := range small.rows {
					h.eval(h.m, i, h.objs[i])
				}
				c.Bound("history length, repetitions", reps)
				c.r.States++
				c.r.Validated++
			})
		}
		// More calls than a counter of 16 bits can count.
		c.Case(it.name+" 66000 calls", func() {
			prep()
			h := &hist{c: c, it: &small, xml: x, base: base, verr: verr}
			h.build()
			for k := 0; k < 66000; k++ {
				h.trace = []string{fmt.Sprintf("%d calls", k)}
				h.eval(h.m, k%nrows, h.objs[k%nrows])
			}
			h.checkHeld()
			c.Bound("calls on one model", 66000)
			c.r.States++
			c.r.Validated++
		})
		// Many distinct rows on one model, in both directions: nothing accumulates per row or field.
		c.Case(it.name+" many rows", func() {
			prep()
			m, err := build(x)
			if err != nil {
				c.Fail(x, "refused: %v", err)
			}
			n := reps
			var rs []Row
			for k := 0; k < n; k++ {
				r := it.rows[k%len(it.rows)].clone()
				r["temp"] = float64(k%140) + float64(k)/1000
				r["amount"] = float64(k%11) / 4
				r[fmt.Sprint("unrelated", k)] = float64(k)
				rs = append(rs, r)
			}
			first := make([]Res, n)
			p2, _ := decode(x)
			for k, r := range rs {
				first[k] = score(m, r)
				c.r.Transitions++
				fresh, err := modelOf(p2)
				if err != nil {
					c.Fail(x, "refused: %v", err)
				}
				if want := score(fresh, r); !identical(first[k], want) {
					c.Fail(x, "row %d %v: %v, on a fresh model %v", k, r, first[k], want)
				}
			}
			for k := n - 1; k >= 0; k-- {
				c.r.Transitions++
				if got := score(m, rs[k]); !identical(got, first[k]) {
					c.Fail(x, "row %d %v: first %v, later %v", k, rs[k], first[k], got)
				}
			}
			c.r.States++
			c.r.Validated++
		})
		_ = baseAll
	}
	// Every document of the other checks: rows forwards, then backwards, with everything else in between.
	fams := []string{"C01", "C05", "C06", "C08"}
	if c.Thorough {
		fams = []string{"C01", "C03", "C05", "C06", "C08", "C02", "C04", "C07"}
	}
	c.Families(c.historyOf, false, fams...)
}

// historyOf scores the rows of a document on one model forwards and backwards, scribbling over
// results and revalidating in between, and compares every answer with that of a fresh model.
func (c *Ctx) historyOf(x string, d *Doc, rows []Row) {
	c.r.States++
	p, err := decode(x)
	if err != nil {
		c.Outcome("refused")
		return
	}
	m, err := modelOf(p)
	c.r.Transitions++
	if err != nil {
		if _, err2 := modelOf(p); err2 == nil {
			c.Fail(x, "refused at first (%v), accepted later", err)
		}
		c.Outcome("refused")
		return
	}
	p2, _ := decode(x)
	base := make([]Res, len(rows))
	objs := make([]evaluation.DataRow, len(rows))
	for i, r := range rows {
		var fresh evaluation.Model
		if i < 2 || i == len(rows)-1 {
			fresh, err = build(x)
		} else {
			fresh, err = modelOf(p2)
		}
		if err != nil {
			c.Fail(x, "accepted at first, refused later: %v", err)
		}
		base[i] = score(fresh, r)
		objs[i] = dataRow(r)
	}
	vbase := m.Verify() != nil
	eval := func(i int, when string) evaluation.DataRow {
		c.curDetail = x + "\n" + rows[i].String()
		out, err := m.Evaluate(objs[i])
		c.r.Transitions++
		if got := toRes(out, err); !identical(got, base[i]) {
			c.Fail(x+"\n"+rows[i].String(), "%s: row %d %v gives %v; a fresh model gives %v", when, i, rows[i], got, base[i])
		}
		if len(objs[i]) != len(rows[i]) {
			c.Fail(x+"\n"+rows[i].String(), "scoring changed the caller's row to %v", objs[i])
		}
		for k, v := range rows[i] {
			if w, ok := objs[i][k]; !ok || !sameRaw(w.Raw(), v) {
				c.Fail(x+"\n"+rows[i].String(), "scoring changed field %s of the caller's row", k)
			}
		}
		return out
	}
	var held []evaluation.DataRow
	for i := range rows {
		held = append(held, eval(i, "forwards"))
	}
	for i, out := range held {
		if out != nil && base[i].Kind == resOut && !identical(toRes(out, nil), base[i]) {
			c.Fail(x, "the result of row %d changed afterwards", i)
		}
		for k := range out {
			out[k] = evaluation.NewValue(-54321.0)
		}
		if out != nil {
			out["extra"] = evaluation.NewValue("x")
			out["x"] = evaluation.NewValue(1e9)
		}
	}
	pool := evaluation.DataRow{}
	for i := range rows {
		refill(pool, rows[i])
		objs[i], pool = pool, objs[i]
		eval(i, "in a row object used for the rows before")
		objs[i], pool = pool, objs[i]
	}
	if err := m.Validate(); err != nil {
		c.Fail(x, "Validate gives %v", err)
	}
	if err := m.Compile(); err != nil {
		c.Fail(x, "Compile gives %v", err)
	}
	if (m.Verify() != nil) != vbase {
		c.Fail(x, "Verify changes its mind")
	}
	for i := len(rows) - 1; i >= 0; i-- {
		eval(i, "backwards, after writing to the results")
	}
	if _, err := modelOf(p); err != nil {
		c.Fail(x, "the document is refused after use: %v", err)
	}
	c.r.Validated++
}

// sameRaw tells whether a field still holds what the caller put there, not-a-number and the sign of zero included.
func sameRaw(a, b interface{}) bool {
	x, ok := a.(float64)
	y, ok2 := b.(float64)
	if ok && ok2 {
		return math.Float64bits(x) == math.Float64bits(y)
	}
	return a == b
}

// c10Near: documents that differ in one place, one built and scored after and between calls of the other, judged by the
// reference.
// c10Values scores, one after the other, rows that differ in one field only: every ordered pair of values, the common
// ones and those that are near each other or look like no value, in models with and without replacements.
func c10Values(c *Ctx) {
	names := []string{"d", "e", "i", "s", "b"}
	fs := []Field{{Name: "d", Type: "double"}, {Name: "e", Type: "float"}, {Name: "i", Type: "integer"}, {Name: "s", Type: "string"}, {Name: "b", Type: "boolean"}, {Name: "k", Type: "string"}}
	repls := map[string]string{"d": "2.5", "e": "-1", "i": "5", "s": "a", "b": "true"}
	values := map[string][]interface{}{
		"d": {nil, 0.0, 2.5, 2.5000001, 3.0, -1.0, math.NaN(), math.Inf(1), "2.5", "", "x"},
		"e": {nil, 0.0, -1.0, 1.5, 1.5000001, float32(0), math.Inf(-1), "-1", ""},
		"i": {nil, int64(0), int64(3), int64(5), 5.0, int64(1 << 53), int64(1<<53 + 1), "5", ""},
		"s": {nil, "", " ", "a", "b", "A", "a ", "<nil>", "NA", "?"},
		"b": {nil, true, false, "true", "false", ""},
	}
	models := replModels()
	var keys []string
	for k := range models {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, key := range keys {
		for decl := 0; decl < 3; decl++ {
			for _, field := range names {
				c.Case(fmt.Sprintf("values %s %d %s", key, decl, field), func() {
					m := models[key]()
					var walk func(x *Mdl, top bool)
					walk = func(x *Mdl, top bool) {
						x.MFs = active(append(names, "k")...)
						if decl == 2 || decl == 1 && top {
							for j, n := range names {
								x.MFs[j].Repl = sp(repls[n])
							}
						}
						for _, s := range x.Segs {
							walk(s.Model, false)
						}
					}
					walk(m, true)
					d := &Doc{Fields: fs, Model: m, TD: []DF{dfC("t", eA("+", eF("d"), eA("*", eF("e"), eK("2"))))}}
					x := d.XML()
					c.curDetail = x
					c.r.States++
					mdl, err := build(x)
					if err != nil {
						c.Fail(x, "refused: %v", err)
					}
					row := func(v interface{}) Row {
						r := Row{"d": 3.0, "e": 1.5, "i": int64(3), "s": "b", "b": true, "k": "a"}
						r[field] = v
						return r
					}
					var base []Res
					for _, v := range values[field] {
						fresh, err := build(x)
						if err != nil {
							c.Fail(x, "refused: %v", err)
						}
						base = append(base, score(fresh, row(v)))
						c.r.Transitions += 2
					}
					for i, v := range values[field] {
						for j, w := range values[field] {
							for step, u := range []interface{}{v, w, v} {
								k := []int{i, j, i}[step]
								got := score(mdl, row(u))
								c.r.Transitions++
								c.r.Validated++
								if !identical(got, base[k]) {
									c.Fail(x+"\n"+row(u).String(), "row %v gives %v, but %v in a fresh model (%s was %v, then %v, step %d)", row(u), got, base[k], field, v, w, step)
								}
								if j == (i+1)%len(values[field]) {
									c.refRow(got, d, row(u), x, fmt.Sprintf("%s was %v, then %v, step %d", field, v, w, step))
								}
							}
						}
					}
				})
			}
		}
	}
}

func c10Near(c *Ctx) {
	items := nearItems()
	for zi := range items {
		it := &items[zi]
		if it.doc.More != nil {
			continue
		}
		nearPairs(it, func(name, what string, a, b *Mdl, rows []Row) {
			c.Case(name, func() {
				c.Outcome("near copy: " + strings.Fields(what)[0])
				docs := []*Doc{it.doc.withModels(a), it.doc.withModels(b)}
				for _, history := range [][]int{{0, 1, 0}, {1, 0, 1}} {
					c.r.States++
					var built []evaluation.Model
					for step, k := range history {
						x := docs[k].XML()
						c.curDetail = x
						m, err := build(x)
						c.r.Transitions++
						if err != nil {
							continue
						}
						built = append(built, m)
						for _, r := range rows {
							c.r.Transitions++
							c.refRow(score(m, r), docs[k], r, docs[0].XML()+"\n"+docs[1].XML(), fmt.Sprintf("%s, documents in turn %v, at %d", what, history, step))
						}
					}
					if len(built) < len(history) {
						continue
					}
					for _, r := range rows {
						for step, k := range history {
							c.r.Transitions++
							c.refRow(score(built[step], r), docs[k], r, docs[0].XML()+"\n"+docs[1].XML(), fmt.Sprintf("%s, documents in turn %v, all built, at %d", what, history, step))
						}
					}
				}
			})
		})
	}
}
