package main

// A plain element tree over the harness's own documents, for checks that rewrite the XML text.

import (
	"encoding/xml"
	"io"
	"strings"
)

type xnode struct {
	name  string // as written, prefix included; "" for character data, "!raw" for text emitted verbatim
	attrs [][2]string
	kids  []*xnode
	text  string
}

func parseX(doc string) *xnode {
	d := xml.NewDecoder(strings.NewReader(doc))
	root := &xnode{}
	stack := []*xnode{root}
	full := func(n xml.Name) string {
		if n.Space != "" {
			return n.Space + ":" + n.Local
		}
		return n.Local
	}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			panic(err)
		}
		top := stack[len(stack)-1]
		switch x := t.(type) {
		case xml.StartElement:
			n := &xnode{name: full(x.Name)}
			for _, a := range x.Attr {
				n.attrs = append(n.attrs, [2]string{full(a.Name), a.Value})
			}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.kids = append(top.kids, &xnode{text: string(x)})
		}
	}
	return root.kids[0]
}

func rawX(s string) *xnode { return &xnode{name: "!raw", text: s} }

func (n *xnode) render(w *strings.Builder) {
	switch n.name {
	case "":
		w.WriteString(attrEsc.Replace(n.text))
		return
	case "!raw":
		w.WriteString(n.text)
		return
	}
	w.WriteString("<" + n.name)
	for _, a := range n.attrs {
		w.WriteString(" " + a[0] + `="` + attrEsc.Replace(a[1]) + `"`)
	}
	if len(n.kids) == 0 {
		w.WriteString("/>")
		return
	}
	w.WriteString(">")
	for _, k := range n.kids {
		k.render(w)
	}
	w.WriteString("</" + n.name + ">")
}

func (n *xnode) String() string {
	var w strings.Builder
	n.render(&w)
	return w.String()
}

func (n *xnode) isElem() bool { return n.name != "" && n.name != "!raw" }

// elems lists n and all elements below it, in document order.
func (n *xnode) elems() []*xnode {
	if !n.isElem() {
		return nil
	}
	r := []*xnode{n}
	for _, k := range n.kids {
		r = append(r, k.elems()...)
	}
	return r
}

func (n *xnode) clone() *xnode {
	c := &xnode{name: n.name, text: n.text, attrs: append([][2]string{}, n.attrs...)}
	for _, k := range n.kids {
		c.kids = append(c.kids, k.clone())
	}
	return c
}

// with renders the tree with one element rewritten by f, and puts it back.
func (n *xnode) with(e *xnode, f func(e *xnode)) string {
	save := *e
	e.attrs = append([][2]string{}, save.attrs...)
	e.kids = append([]*xnode{}, save.kids...)
	f(e)
	s := n.String()
	*e = save
	return s
}

func (e *xnode) insert(i int, k *xnode) {
	e.kids = append(e.kids, nil)
	copy(e.kids[i+1:], e.kids[i:])
	e.kids[i] = k
}

func (e *xnode) attr(name string) (string, bool) {
	for _, a := range e.attrs {
		if a[0] == name {
			return a[1], true
		}
	}
	return "", false
}

func (e *xnode) setAttr(name, v string) {
	for i := range e.attrs {
		if e.attrs[i][0] == name {
			e.attrs[i][1] = v
			return
		}
	}
	e.attrs = append(e.attrs, [2]string{name, v})
}

func (e *xnode) textOnly() bool {
	for _, k := range e.kids {
		if k.isElem() {
			return false
		}
	}
	return len(e.kids) > 0
}
