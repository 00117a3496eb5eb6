package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/flukeish/pmml/models"
)

func init() {
	register(&prop{id: "C18", level: "fault_enumeration",
		what:   "evaluations are decodes of one faulty or fragmented delivery; distinct_nontrivial counts the distinct deliveries: every proper prefix of every document, a reader failing at every byte (with and without data in the same call, four kinds of error), every split into two chunks and every fixed chunk size, every deleted, duplicated, renamed or swapped tag, every single-byte deletion and substitution by markup or control characters (wherever the result is not well-formed), undefined entities at every text and attribute, and every numeric attribute made non-numeric.",
		assume: []string{"well-formedness of a mutated text is decided by tokenising it with encoding/xml, without this library", "the final byte of the root element having been delivered, what the reader does afterwards is irrelevant"},
		run:    runC18})
}

// scripted is a reader that delivers chunks and then an error.
type scripted struct {
	chunks [][]byte
	err    error
	attach bool // the error comes together with the last bytes
	zero   bool // an empty read before every chunk
	z      bool
}

func (r *scripted) Read(p []byte) (int, error) {
	if r.zero && !r.z {
		r.z = true
		return 0, nil
	}
	r.z = false
	for len(r.chunks) > 0 && len(r.chunks[0]) == 0 {
		r.chunks = r.chunks[1:]
	}
	if len(r.chunks) == 0 {
		return 0, r.err
	}
	n := copy(p, r.chunks[0])
	r.chunks[0] = r.chunks[0][n:]
	if len(r.chunks[0]) == 0 {
		r.chunks = r.chunks[1:]
	}
	if r.attach && len(r.chunks) == 0 {
		return n, r.err
	}
	return n, nil
}

var errRead = errors.New("the reader failed")

func (c *Ctx) decodeFrom(r io.Reader) (*models.PMML, error) {
	p := new(models.PMML)
	err := xml.NewDecoder(r).Decode(p)
	c.r.Transitions++
	return p, err
}

func wellFormed(s string) bool {
	d := xml.NewDecoder(strings.NewReader(s))
	depth := 0
	for {
		t, err := d.Token()
		if err != nil {
			return false
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			depth--
			if depth == 0 {
				return true
			}
		}
	}
}

type tagSpan struct {
	a, b int
	name string
	kind byte // s start, e end, x empty
}

func tagsOf(s string) []tagSpan {
	var r []tagSpan
	for i := 0; i < len(s); i++ {
		if s[i] != '<' {
			continue
		}
		j := i + strings.IndexByte(s[i:], '>')
		t := tagSpan{a: i, b: j + 1, kind: 's'}
		in := s[i+1 : j]
		if in[0] == '/' {
			t.kind, t.name = 'e', in[1:]
		} else {
			if strings.HasSuffix(in, "/") {
				t.kind = 'x'
				in = in[:len(in)-1]
			}
			t.name = strings.Fields(in)[0]
		}
		r = append(r, t)
	}
	return r
}

// numeric attributes the library decodes as numbers
var numericAttrs = map[string][]string{
	"DataDictionary": {"numberOfFields"}, "Interval": {"leftMargin", "rightMargin"}, "MiningField": {"lowValue", "highValue", "importance"},
	"OutputField": {"rank", "isMultiValued"}, "Target": {"min", "max", "rescaleConstant", "rescaleFactor"}, "TreeModel": {"missingValuePenalty"},
	"Node": {"recordCount"}, "ScoreDistribution": {"recordCount", "probability", "confidence"}, "Array": {"n"}, "RegressionTable": {"intercept"},
	"NumericPredictor": {"exponent", "coefficient"}, "CategoricalPredictor": {"coefficient"}, "ModelVerification": {"recordCount", "fieldCount"},
	"VerificationField": {"precision", "zeroThreshold"},
}

var boolAttrs = map[string][]string{"TreeModel": {"isScorable"}, "RegressionModel": {"isScorable"}, "MiningModel": {"isScorable"}, "DataField": {"isCyclic"}}

func runC18(c *Ctx) {
	type src struct{ name, xml string }
	var docs []src
	for _, n := range richNames {
		docs = append(docs, src{"rich-" + n, richDocs()[n]})
	}
	items := append(setDocs(), zoo()...)
	for i := range items {
		docs = append(docs, src{items[i].name, items[i].verification().XML()})
	}
	small := map[string]bool{"rich-tree": true, "rich-reg": true, "rich-mining": true, "sets": true, "table": true, "chain": true}
	mustFail := func(x string, err error, what string) {
		c.r.States++
		if err == nil {
			c.Fail(x, "%s is decoded as if it were whole", what)
		}
		c.Outcome("refused")
	}
	for _, d := range docs {
		x := d.xml
		b := []byte(x)
		var whole *models.PMML
		prep := func() {
			if whole == nil {
				p, err := decode(x)
				if err != nil {
					c.Fail(x, "the document is refused: %v", err)
				}
				whole = p
			}
			c.curDetail = x
		}
		sameDoc := func(p *models.PMML, err error, how string) {
			c.r.States++
			if err != nil {
				c.Fail(x, "%s: %v", how, err)
			}
			if !reflect.DeepEqual(p, whole) {
				c.Fail(x, "%s: the decoded document differs", how)
			}
			c.Outcome("decoded")
		}
		// Prefixes, in blocks of one case each.
		const block = 64
		for lo := 0; lo < len(b); lo += block {
			hi := min(lo+block, len(b))
			c.Case(fmt.Sprintf("%s prefixes %d-%d", d.name, lo, hi-1), func() {
				prep()
				for n := lo; n < hi; n++ {
					what := fmt.Sprintf("a document cut after %d of %d bytes", n, len(b))
					_, err := c.decodeFrom(bytes.NewReader(b[:n]))
					mustFail(x[:n], err, what)
					if small[d.name] || c.Thorough {
						err = xml.Unmarshal(b[:n], new(models.PMML))
						c.r.Transitions++
						mustFail(x[:n], err, what)
					}
					for k, e := range []error{errRead, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe} {
						if k > 0 && !small[d.name] && !c.Thorough {
							continue
						}
						for m := 0; m < 2; m++ {
							if m != n%4 && !small[d.name] && !c.Thorough {
								continue
							}
							_, err = c.decodeFrom(&scripted{chunks: [][]byte{b[:n]}, err: e, attach: m == 1})
							mustFail(x[:n], err, fmt.Sprintf("a document whose reader fails after %d of %d bytes (%v)", n, len(b), e))
						}
					}
					if small[d.name] {
						_, err = c.decodeFrom(&scripted{chunks: [][]byte{b[:n/2], b[n/2 : n]}, err: io.EOF, attach: true, zero: true})
						mustFail(x[:n], err, what)
					}
				}
				c.Sample(map[string]interface{}{"case": c.name, "document": x[:lo]})
			})
			// Two chunks, split at every byte.
			c.Case(fmt.Sprintf("%s splits %d-%d", d.name, lo, hi-1), func() {
				prep()
				for n := lo; n < hi; n++ {
					if n%4 != 0 && !small[d.name] && !c.Thorough {
						continue
					}
					p, err := c.decodeFrom(&scripted{chunks: [][]byte{b[:n], b[n:]}, err: io.EOF, attach: n%2 == 0, zero: n%3 == 0})
					sameDoc(p, err, fmt.Sprintf("delivered in two parts, %d bytes first", n))
				}
			})
		}
		for _, sz := range []int{1, 2, 3, 5, 7, 16, 64, 511, 512, 513, 1000, 4095, 4096, 4097, 1 << 20} {
			c.Case(fmt.Sprintf("%s chunks of %d", d.name, sz), func() {
				prep()
				for m := 0; m < 4; m++ {
					var ch [][]byte
					for i := 0; i < len(b); i += sz {
						ch = append(ch, b[i:min(i+sz, len(b))])
					}
					p, err := c.decodeFrom(&scripted{chunks: ch, err: io.EOF, attach: m&1 == 1, zero: m&2 == 2})
					sameDoc(p, err, fmt.Sprintf("delivered %d bytes at a time", sz))
				}
			})
		}
		c.Case(d.name+" after the end", func() {
			prep()
			for _, tail := range []string{"\n", "<!-- c -->"} {
				p, err := c.decodeFrom(strings.NewReader(x + tail))
				sameDoc(p, err, "followed by "+tail)
			}
			err := xml.Unmarshal(b, new(models.PMML))
			c.r.Transitions++
			if err != nil {
				c.Fail(x, "Unmarshal: %v", err)
			}
		})
		// Tags.
		tags := tagsOf(x)
		cut := func(name string, mk func() string) {
			c.Case(d.name+" "+name, func() {
				y := mk()
				if y == x || wellFormed(y) {
					c.Unspec("still well-formed")
					return
				}
				c.curDetail = y
				_, err := c.decodeFrom(strings.NewReader(y))
				mustFail(y, err, "a document with damaged markup ("+name+")")
			})
		}
		for i, t := range tags {
			if t.kind != 'x' {
				cut(fmt.Sprintf("without tag %d %s", i, x[t.a:t.b]), func() string { return x[:t.a] + x[t.b:] })
				cut(fmt.Sprintf("tag %d renamed", i), func() string {
					return strings.Replace(x[:t.a], "", "", 1) + strings.Replace(x[t.a:t.b], t.name, t.name+"x", 1) + x[t.b:]
				})
				cut(fmt.Sprintf("tag %d in the other case", i), func() string {
					return x[:t.a] + strings.Replace(x[t.a:t.b], t.name, strings.ToLower(t.name), 1) + x[t.b:]
				})
				cut(fmt.Sprintf("tag %d twice", i), func() string { return x[:t.b] + x[t.a:t.b] + x[t.b:] })
			} else {
				cut(fmt.Sprintf("tag %d left open", i), func() string { return x[:t.b-2] + ">" + x[t.b:] })
			}
			if i+1 < len(tags) && t.kind == 'e' && tags[i+1].kind == 'e' {
				u := tags[i+1]
				cut(fmt.Sprintf("end tags %d swapped", i), func() string { return x[:t.a] + x[u.a:u.b] + x[t.b:u.a] + x[t.a:t.b] + x[u.b:] })
			}
			cut(fmt.Sprintf("stray end tag before %d", i), func() string { return x[:t.a] + "</Node>" + x[t.a:] })
			cut(fmt.Sprintf("undefined entity before %d", i), func() string { return x[:t.a] + "&nosuch;" + x[t.a:] })
		}
		if small[d.name] || c.Thorough {
			subs := []string{"", "<", ">", "&", "\"", "/", "=", "\x01", "\xff", "x", "]]>"}
			for i := 0; i < len(b); i++ {
				c.Case(fmt.Sprintf("%s byte %d", d.name, i), func() {
					for _, s := range subs {
						y := x[:i] + s + x[i+1:]
						if y == x || wellFormed(y) {
							c.Unspec("still well-formed")
							continue
						}
						c.curDetail = y
						_, err := c.decodeFrom(strings.NewReader(y))
						mustFail(y, err, fmt.Sprintf("a document whose byte %d is %q instead of %q", i, s, x[i:i+1]))
					}
				})
			}
		}
		// Numbers.
		root := parseX(x)
		for ei, e := range root.elems() {
			bad := []string{"abc", "1,5", "1.2.3", "1e", "--1", "+-2", "1 2", "12abc", "x1", "1/2", "0x", "½", ".", "e5", "1e5e", "true", "NULL", "null", "None", "-", "$1", "1%"}
			try := func(attr string, vals []string) {
				for _, v := range vals {
					c.Case(fmt.Sprintf("%s %s#%d %s=%q", d.name, e.name, ei, attr, v), func() {
						y := root.with(e, func(e *xnode) { e.setAttr(attr, v) })
						c.curDetail = y
						_, err := c.decodeFrom(strings.NewReader(y))
						mustFail(y, err, fmt.Sprintf("%s of %s being %q", attr, e.name, v))
					})
				}
			}
			for _, a := range numericAttrs[e.name] {
				for _, s := range specs[e.name].attrs {
					if s.name == a && (s.kind == 'i' || s.kind == 'I' || s.kind == 'E') {
						try(a, []string{"1.5", "1e3", "99999999999999999999"})
					}
				}
				try(a, bad)
			}
			for _, a := range boolAttrs[e.name] {
				try(a, []string{"maybe", "2", "yes", "truefalse", "1.0"})
			}
		}
	}
}
