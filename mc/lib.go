package main

// The only file that touches the library: decoding, building, scoring, and comparing with the
// reference.

import (
	"encoding/xml"
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"strings"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

func sortStrings(s []string) { sort.Strings(s) }

func decode(doc string) (*models.PMML, error) {
	p := new(models.PMML)
	err := xml.NewDecoder(strings.NewReader(doc)).Decode(p)
	return p, err
}

func modelOf(p *models.PMML) (evaluation.Model, error) {
	if len(p.Models) == 0 {
		return nil, fmt.Errorf("document without a model")
	}
	return modelAt(p, 0)
}

func modelAt(p *models.PMML, i int) (evaluation.Model, error) {
	return evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[i])
}

func build(doc string) (evaluation.Model, error) {
	p, err := decode(doc)
	if err != nil {
		return nil, err
	}
	return modelOf(p)
}

func dataRow(r Row) evaluation.DataRow {
	d := make(evaluation.DataRow, len(r))
	for k, v := range r {
		d[k] = evaluation.NewValue(v)
	}
	return d
}

func score(m evaluation.Model, r Row) Res { return toRes(m.Evaluate(dataRow(r))) }

func toRes(out evaluation.DataRow, err error) Res {
	if err != nil {
		return Res{Kind: resErr, Reason: err.Error()}
	}
	if len(out) == 0 {
		return Res{Kind: resNull}
	}
	o := map[string]interface{}{}
	for k, v := range out {
		o[k] = v.Raw()
	}
	return Res{Kind: resOut, Out: o}
}

// diff tells how an observed result differs from what is wanted; "" if it does not.
func diff(got, want Res) string {
	if want.Kind == resUnspec {
		return ""
	}
	if got.Kind != want.Kind {
		return fmt.Sprintf("got %v, want %v", got, want)
	}
	if want.Kind != resOut {
		return ""
	}
	for k, w := range want.Out {
		g, ok := got.Out[k]
		if !ok {
			return fmt.Sprintf("output %q is missing: got %v, want %v", k, got, want)
		}
		if !sameVal(g, w) {
			return fmt.Sprintf("output %q: got %T(%v), want %v", k, g, g, w)
		}
	}
	for k := range got.Out {
		if _, ok := want.Out[k]; !ok {
			return fmt.Sprintf("unexpected output %q: got %v, want %v", k, got, want)
		}
	}
	return ""
}

func sameVal(g, w interface{}) bool {
	switch x := w.(type) {
	case float64:
		y, ok := g.(float64)
		return ok && same(y, x)
	case []string:
		y, ok := g.(string)
		for _, l := range x {
			if ok && l == y {
				return true
			}
		}
		return false
	}
	return g == w
}

// identical compares two observed results bit by bit; errors count as equal whatever their text.
func identical(a, b Res) bool {
	if a.Kind != b.Kind || len(a.Out) != len(b.Out) {
		return false
	}
	for k, v := range a.Out {
		w, ok := b.Out[k]
		if !ok {
			return false
		}
		f, isF := v.(float64)
		g, isG := w.(float64)
		if isF != isG || isF && math.Float64bits(f) != math.Float64bits(g) || !isF && v != w {
			return false
		}
	}
	return true
}

func outcomeKey(r Res) string {
	switch r.Kind {
	case resUnspec:
		return "unspecified"
	case resErr:
		return "error"
	case resNull:
		return "no prediction"
	}
	n := 0
	for _, v := range r.Out {
		if f, ok := v.(float64); ok && f != 0 {
			n++
		}
	}
	return fmt.Sprintf("%d outputs, %d nonzero", len(r.Out), n)
}

// Check builds the document and compares the score of every row with the reference.
func (c *Ctx) Check(d *Doc, rows ...Row) {
	x := d.XML()
	c.CheckXML(x, d, rows...)
}

func (c *Ctx) CheckXML(x string, d *Doc, rows ...Row) {
	c.curDetail = x
	if c.mode != nil {
		c.mode(x, d, rows)
		return
	}
	c.r.States++
	m, err := build(x)
	if err == nil {
		err = m.Validate()
	}
	c.r.Transitions++
	if err != nil {
		excused := false
		for _, r := range rows {
			w := d.Ref(r)
			excused = excused || w.Kind == resErr || w.Kind == resUnspec
		}
		if !excused {
			c.Fail(x, "the document is refused: %v", err)
		}
		c.Outcome("refused")
		c.r.Validated++
		return
	}
	for _, r := range rows {
		c.CheckRow(m, d, x, r)
	}
	c.reworded(x, d, rows)
	c.Sample(map[string]interface{}{"case": c.name, "document": x, "rows": fmt.Sprint(rows[:min(len(rows), 4)]), "of_rows": len(rows)})
}

// reworded checks the document under other names or in another order too, against the reference like any document:
// every document at the thorough tier, one in three (chosen by its text) at the quick one, each in one way (two).
func (c *Ctx) reworded(x string, d *Doc, rows []Row) {
	if len(x) > 60000 {
		return
	}
	h := fnv.New32a()
	h.Write([]byte(x))
	n := int(h.Sum32() >> 4)
	ways := 2
	if !c.Thorough {
		if n%3 != 0 {
			return
		}
		ways = 1
		if len(rows) > 24 {
			var few []Row
			for i := 0; i < 24; i++ {
				few = append(few, rows[i*len(rows)/24])
			}
			rows = few
		}
	}
	n /= 3
	f := factsOf(d, rows)
	for k := 0; k < len(c23catalogue) && ways > 0; k++ {
		cat := c23catalogue[(n+k)%len(c23catalogue)]
		t := cat.mk(f)
		if t == nil {
			continue
		}
		e := t.doc(d)
		y := e.XML()
		if y == x {
			continue
		}
		ways--
		c.Outcome("reworded: " + cat.name)
		c.curDetail = y
		c.r.States++
		c.r.Transitions++
		m, err := build(y)
		if err != nil {
			c.Fail(x+"\n"+y, "%s: the document is refused: %v", cat.name, err)
		}
		for _, r := range rows {
			c.CheckRow(m, e, y, t.row(r))
		}
	}
}

func (c *Ctx) CheckRow(m evaluation.Model, d *Doc, x string, r Row) {
	want := d.Ref(r)
	c.curDetail = x + "\n" + r.String()
	got := score(m, r)
	c.r.Transitions++
	if want.Kind == resUnspec {
		c.Unspec(want.Reason)
		return
	}
	c.r.Validated++
	c.Outcome(outcomeKey(want))
	if s := diff(got, want); s != "" {
		c.Fail(x+"\n"+r.String(), "row %v: %s", r, s)
	}
}

// Families runs the document families of other checks with another judgement than their own.
func (c *Ctx) Families(mode func(x string, d *Doc, rows []Row), thorough bool, ids ...string) {
	old := c.Thorough
	c.mode, c.Thorough, c.prefix = mode, thorough, ""
	for _, id := range ids {
		c.prefix = "documents of " + id + ": "
		props[id].run(c)
	}
	c.mode, c.Thorough, c.prefix = nil, old, ""
}

type posList []int

func (p posList) has(i int) bool {
	for _, x := range p {
		if x == i {
			return true
		}
	}
	return false
}

// positions of n where something that is counted, indexed or shifted in a narrow type would go
// wrong: all of a short list, the surroundings of the powers of two of a long one.
func positions(n int) (out posList) {
	for i := 0; i < n; i++ {
		keep := n <= 150 || i >= n-2
		for p := 1; p <= n && !keep; p *= 2 {
			keep = i >= p-1 && i <= p+1
		}
		if keep {
			out = append(out, i)
		}
	}
	return out
}
