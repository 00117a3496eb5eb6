package main

import (
	"encoding/xml"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/models"
)

func init() {
	register(&prop{id: "C19", level: "model_checking",
		what:   "one state per array text (every character string up to a length over an alphabet of special characters; every element list up to a length over an alphabet of elements, in every writing style and separator); transitions are decode, element and predicate calls; one validated trace per comparison with the reference splitting. Texts with a quotation mark inside an unquoted or after a quoted element are left unspecified.",
		assume: []string{"quotation marks inside an unquoted element have no defined meaning"},
		run:    runC19})
}

// refArray splits array text: blanks separate, quotes group, a backslash escapes a quotation mark or
// a backslash.
func refArray(s string) ([]string, error) {
	toks := []string{}
	i := 0
	blank := func(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }
	for {
		for i < len(s) && blank(s[i]) {
			i++
		}
		if i == len(s) {
			return toks, nil
		}
		t, quoted := "", s[i] == '"'
		if quoted {
			i++
		}
		for {
			if i == len(s) {
				if quoted {
					return nil, fmt.Errorf("unterminated quote")
				}
				break
			}
			if s[i] == '\\' && i+1 < len(s) && (s[i+1] == '"' || s[i+1] == '\\') {
				t += s[i+1 : i+2]
				i += 2
				continue
			}
			if s[i] == '"' {
				if quoted && (i+1 == len(s) || blank(s[i+1])) {
					i++
					break
				}
				dunno("quotation mark inside an element")
			}
			if !quoted && blank(s[i]) {
				break
			}
			t += s[i : i+1]
			i++
		}
		toks = append(toks, t)
	}
}

func decodeArray(x string) (*models.ArrayType, error) {
	a := new(models.ArrayType)
	err := xml.Unmarshal([]byte(x), a)
	return a, err
}

// arrayAnswers asks an array for its elements in every type, twice, in either order.
func (c *Ctx) arrayAnswers(x, typ string, want []string, wantErr bool) {
	c.curDetail = x
	for order := 0; order < 2; order++ {
		a, err := decodeArray(x)
		c.r.Transitions++
		if err != nil {
			c.Fail(x, "the array is refused: %v", err)
		}
		for round := 0; round < 3; round++ {
			for k := 0; k < 3; k++ {
				kind := []string{"string", "int", "real"}[(k+order*2)%3]
				var got []string
				var err error
				switch kind {
				case "string":
					got, err = a.Strings()
				case "int":
					var l []int64
					l, err = a.Int64s()
					for _, v := range l {
						got = append(got, strconv.FormatInt(v, 10))
					}
				case "real":
					var l []float64
					l, err = a.Float64s()
					for _, v := range l {
						got = append(got, strconv.FormatFloat(v, 'g', -1, 64))
					}
				}
				c.r.Transitions++
				if kind != typ {
					if err == nil {
						c.Fail(x, "an array of type %s has elements of type %s: %q", typ, kind, got)
					}
					continue
				}
				if wantErr {
					if err == nil {
						c.Fail(x, "round %d: got %q, want an error", round, got)
					}
					continue
				}
				if err != nil {
					c.Fail(x, "round %d: error %v, want %q", round, err, want)
				}
				exp := []string{}
				for _, w := range want {
					switch typ {
					case "int":
						v, _ := strconv.ParseInt(w, 10, 64)
						w = strconv.FormatInt(v, 10)
					case "real":
						v, _ := strconv.ParseFloat(w, 64)
						w = strconv.FormatFloat(v, 'g', -1, 64)
					}
					exp = append(exp, w)
				}
				if strings.Join(got, "\x00") != strings.Join(exp, "\x00") || len(got) != len(exp) {
					c.Fail(x, "round %d: got %q, want %q", round, got, exp)
				}
			}
		}
	}
	c.r.Validated++
}

func numericToken(typ, s string) bool {
	if typ == "int" {
		_, err := strconv.ParseInt(s, 10, 64)
		return err == nil
	}
	f, err := strconv.ParseFloat(s, 64)
	return err == nil && !math.IsInf(f, 0) && !math.IsNaN(f)
}

func (c *Ctx) arrayText(raw string, inXML string, typ string, n string) {
	c.r.States++
	x := "<Array type=\"" + typ + "\"" + n + ">" + inXML + "</Array>"
	var want []string
	wantErr, skip := false, false
	func() {
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(unspec)
				if !ok {
					panic(r)
				}
				c.Unspec(u.why)
				skip = true
			}
		}()
		var err error
		want, err = refArray(raw)
		wantErr = err != nil
	}()
	if skip {
		return
	}
	if typ != "string" {
		for _, w := range want {
			wantErr = wantErr || !numericToken(typ, w)
		}
	}
	c.Outcome(fmt.Sprintf("%s: %d elements, error %v", typ, len(want), wantErr))
	c.arrayAnswers(x, typ, want, wantErr)
}

// arrayPredicate scores a set predicate over the array for every candidate value.
func (c *Ctx) arrayPredicate(inXML string, elems []string, cands []string) {
	for _, op := range []string{"isIn", "isNotIn"} {
		doc := "<PMML version=\"4.3\"><Header/><DataDictionary><DataField name=\"f\" optype=\"categorical\" dataType=\"string\"/></DataDictionary><TreeModel functionName=\"regression\"><MiningSchema><MiningField name=\"f\"/></MiningSchema><Node score=\"0\"><True/><Node score=\"1\"><SimpleSetPredicate field=\"f\" booleanOperator=\"" + op + "\"><Array type=\"string\">" + inXML + "</Array></SimpleSetPredicate></Node></Node></TreeModel></PMML>"
		c.curDetail = doc
		m, err := build(doc)
		c.r.Transitions++
		if err != nil {
			c.Fail(doc, "the document is refused: %v", err)
		}
		for _, v := range cands {
			got := score(m, Row{"f": v})
			c.r.Transitions++
			want := 0.0
			if contains(elems, v) == (op == "isIn") {
				want = 1
			}
			if s := diff(got, Res{Kind: resOut, Out: map[string]interface{}{"score": want}}); s != "" {
				c.Fail(doc, "value %q: %s", v, s)
			}
			c.r.Validated++
		}
	}
}

func runC19(c *Ctx) {
	// Every text up to a length bound.
	max := 5
	if c.Thorough {
		max = 7
	}
	alpha := []string{"a", " ", "\"", "\\", "#", "'", "\n"}
	for n := 0; n <= max; n++ {
		c.Bound("characters", n)
		vectors(n, len(alpha), func(v []int) {
			c.Case(fmt.Sprint("text ", v), func() {
				s := ""
				for _, i := range v {
					s += alpha[i]
				}
				c.arrayText(s, attrEsc.Replace(s), "string", "")
				if n <= 4 {
					c.arrayText(s, "<![CDATA["+s+"]]>", "string", "")
					c.arrayText(s, charRefs(s, "&#x%x;"), "string", " n=\"7\"")
				}
				c.Sample(map[string]interface{}{"text": s})
			})
		})
	}
	// Every number text up to a length bound.
	nalpha := []string{"1", "0", "-", ".", "e", " ", "+", "\"", ","}
	nmax := 5
	if c.Thorough {
		nmax = 6
	}
	for n := 0; n <= nmax; n++ {
		vectors(n, len(nalpha), func(v []int) {
			c.Case(fmt.Sprint("numbers ", v), func() {
				s := ""
				for _, i := range v {
					s += nalpha[i]
				}
				c.arrayText(s, attrEsc.Replace(s), "int", "")
				if n <= 3 { // a count that disagrees with the elements
					for _, count := range []string{` n="0"`, ` n="1"`, ` n="9"`} {
						c.arrayText(s, attrEsc.Replace(s), "int", count)
						c.arrayText(s, attrEsc.Replace(s), "real", count)
						c.arrayText(s, attrEsc.Replace(s), "string", count)
					}
				}
				c.arrayText(s, attrEsc.Replace(s), "real", "")
			})
		})
	}
	for _, s := range []string{"9223372036854775807 -9223372036854775808", "9223372036854775808", "-9223372036854775809", "0x10", "1_000", "1e3", "12abc", "abc", "1;2", "1,2", "1\t2\r\n3", "00012 +7", "1e308 -1e308 1e-320", "3.141592653589793 0.1 .5 5.", "123456789012345678", "0x1p-2"} {
		c.Case("number "+s, func() {
			c.arrayText(s, s, "int", "")
			if !strings.Contains(s, "0x") {
				c.arrayText(s, s, "real", "")
			}
		})
	}
	// Every list of elements in every style.
	elems := []string{"", "a", "b c", "#x", "it's", "q\"q", "back\\slash", "end\\", "é€𝄞", "<a&b>", "$HOME `x` *?", "tab\there", "new\nline", "-1", "\"", "--", "a=b;c|d", ",", "\u00a0x"}
	lmax := 3
	if c.Thorough {
		lmax = 4
	}
	seps := []string{" ", "\n", "\t \r\n ", "  "}
	for n := 0; n <= lmax; n++ {
		c.Bound("elements", n)
		vectors(n, len(elems), func(v []int) {
			c.Case(fmt.Sprint("elements ", v), func() {
				var l []string
				for _, i := range v {
					l = append(l, elems[i])
				}
				for style := 0; style < 2; style++ {
					for si, sep := range seps {
						if n == 3 && si > 1 || n == 4 && si > 0 {
							continue
						}
						var w []string
						for _, s := range l {
							e := strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(s)
							if style == 0 || s == "" || strings.ContainsAny(s, " \t\n") {
								e = "\"" + e + "\""
							}
							w = append(w, e)
						}
						raw := strings.Join(w, sep)
						if si > 0 {
							raw = sep + raw + sep
						}
						c.arrayText(raw, attrEsc.Replace(raw), "string", "")
						if n <= 2 {
							c.arrayText(raw, "<![CDATA["+raw+"]]>", "string", "")
							c.arrayText(raw, "<!-- \" -->"+charRefs(raw, "&#%d;")+"<?p \" ?>", "string", "")
						}
						if si == 0 && n <= 2 {
							c.arrayPredicate(attrEsc.Replace(raw), l, elems)
						}
					}
				}
			})
		})
	}
	for _, n := range []int{10, 100, 1000, 5000} {
		c.Case(fmt.Sprint("long ", n), func() {
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, fmt.Sprint(i*7-n))
			}
			c.Bound("elements, long", n)
			raw := strings.Join(l, " ")
			for _, typ := range []string{"string", "int", "real"} {
				c.arrayText(raw, raw, typ, "")
			}
			c.arrayPredicate(raw, l, []string{l[0], l[n/2], l[n-1], "x", fmt.Sprint(n * 7)})
			c.arrayText(strings.Repeat("x", n)+" \""+strings.Repeat("y ", n)+"\"", strings.Repeat("x", n)+" \""+strings.Repeat("y ", n)+"\"", "string", "")
		})
	}
}
