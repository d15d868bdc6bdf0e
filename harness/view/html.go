package view

import (
	"fmt"
	"html"
	"regexp"
	"strings"

	"vh/ref"
)

// Token of a page.
type Token struct {
	Kind byte   // 't' text, 's' start tag, 'e' end tag, 'c' comment, 'd' doctype
	Name string // of tags
	Raw  string // tag with attributes, white space normalised
	Text string // unescaped
}

func isLetter(b byte) bool { return b|0x20 >= 'a' && b|0x20 <= 'z' }

// Tokenize follows the HTML tokenization rules as far as they matter for
// telling text from markup.
func Tokenize(s string) []Token {
	var out []Token
	text := func(t string) {
		if t != "" {
			out = append(out, Token{Kind: 't', Text: html.UnescapeString(t)})
		}
	}
	start := 0
	i := 0
	for i < len(s) {
		if s[i] != '<' || i+1 >= len(s) {
			i++
			continue
		}
		n := s[i+1]
		switch {
		case isLetter(n) || n == '/' && i+2 < len(s) && isLetter(s[i+2]):
			text(s[start:i])
			j := i + 1
			var q byte
			val := false
			for j < len(s) {
				c := s[j]
				if q != 0 {
					if c == q {
						q = 0
					}
				} else if c == '=' {
					val = true
					j++
					continue
				} else if (c == '"' || c == '\'') && val {
					q = c
				} else if c == '>' {
					break
				}
				if c != ' ' && c != '\n' && c != '\t' {
					val = false
				}
				j++
			}
			raw := s[i+1 : min(j, len(s))]
			kind := byte('s')
			if raw[0] == '/' {
				kind, raw = 'e', raw[1:]
			}
			k := 0
			for k < len(raw) && !strings.ContainsRune(" \t\n\r\f/", rune(raw[k])) {
				k++
			}
			name := strings.ToLower(raw[:k])
			norm := strings.TrimSuffix(strings.Join(strings.Fields(raw), " "), "/")
			out = append(out, Token{Kind: kind, Name: name, Raw: strings.TrimSpace(norm)})
			i = min(j+1, len(s))
			start = i
			if kind == 's' {
				switch name {
				case "style", "script", "title", "textarea", "xmp", "iframe", "noembed", "noframes":
					e := strings.Index(strings.ToLower(s[i:]), "</"+name)
					if e < 0 {
						e = len(s) - i
					}
					t := s[i : i+e]
					if name == "title" || name == "textarea" {
						t = html.UnescapeString(t)
					}
					out = append(out, Token{Kind: 't', Text: t})
					i += e
					start = i
				case "plaintext":
					out = append(out, Token{Kind: 't', Text: s[i:]})
					return out
				}
			}
		case n == '!' || n == '?' || n == '/':
			text(s[start:i])
			var e int
			kind := byte('c')
			if strings.HasPrefix(s[i:], "<!--") {
				if e = strings.Index(s[i+4:], "-->"); e >= 0 {
					e += i + 7
				}
			} else {
				if len(s) >= i+9 && strings.EqualFold(s[i:i+9], "<!doctype") {
					kind = 'd'
				}
				if e = strings.IndexByte(s[i:], '>'); e >= 0 {
					e += i + 1
				}
			}
			if e < 0 {
				e = len(s)
			}
			out = append(out, Token{Kind: kind, Raw: s[i:e]})
			i, start = e, e
		default:
			i++
		}
	}
	text(s[start:])
	return out
}

var void = map[string]bool{"meta": true, "link": true, "br": true, "img": true, "hr": true, "input": true}

// Page is an analysed page.
type Page struct {
	Paths map[string]int // element paths (tags with attributes) and how often they occur
	Rows  [][]string     // texts of the cells of each table row
	Paras []string       // texts of the paragraphs
	Loads []string       // scripts, and what a browser would load from elsewhere
}

var (
	attribute = regexp.MustCompile(`(?is)[\s/"'](on[a-z]+|src|srcset|href|xlink:href|data|action|formaction|poster|background|manifest|ping|style)\s*=\s*("[^"]*"|'[^']*'|[^\s>"']*)`)
	cssLoad   = regexp.MustCompile(`(?i)@import|url\(\s*["']?([^"')]*)`)
)

// inside tells if the reference needs nothing but the page itself
func inside(ref string) bool {
	ref = strings.TrimSpace(html.UnescapeString(strings.Trim(ref, `"'`)))
	return ref == "" || ref[0] == '#' || len(ref) > 5 && strings.EqualFold(ref[:5], "data:")
}

func cssLoads(css string) (out []string) {
	for _, m := range cssLoad.FindAllStringSubmatch(css, -1) {
		if !inside(m[1]) || strings.HasPrefix(m[0], "@") {
			out = append(out, "style "+first(m[0], 80))
		}
	}
	return
}

// loads lists what the tag runs or fetches.
func loads(t Token) (out []string) {
	switch t.Name {
	case "script", "iframe", "frame", "object", "embed", "applet", "base":
		out = append(out, "<"+first(t.Raw, 80)+">")
	case "meta":
		if strings.Contains(strings.ToLower(t.Raw), "http-equiv") && strings.Contains(strings.ToLower(t.Raw), "refresh") {
			out = append(out, "<"+first(t.Raw, 80)+">")
		}
	}
	for _, m := range attribute.FindAllStringSubmatch(t.Raw, -1) {
		name := strings.ToLower(m[1])
		switch {
		case name == "style":
			out = append(out, cssLoads(html.UnescapeString(m[2]))...)
		case strings.HasPrefix(name, "on") || !inside(m[2]) && !(name == "href" && t.Name == "a"):
			out = append(out, "<"+first(t.Raw, 80)+">")
		}
	}
	return
}

// ParsePage checks that the elements nest and extracts the facts.
func ParsePage(s string) (*Page, error) {
	p := &Page{Paths: map[string]int{}}
	var stack []Token
	var buf *strings.Builder
	for _, t := range Tokenize(s) {
		switch t.Kind {
		case 't':
			if buf != nil {
				buf.WriteString(t.Text)
			} else if len(stack) > 0 {
				switch top := stack[len(stack)-1].Name; top {
				case "style":
					p.Loads = append(p.Loads, cssLoads(t.Text)...)
				case "title", "h1", "h2", "h3", "script":
				default:
					if strings.TrimSpace(t.Text) != "" {
						return nil, fmt.Errorf("text %q directly in <%s>", first(t.Text, 80), top)
					}
				}
			}
		case 'c':
			return nil, fmt.Errorf("comment %q", first(t.Raw, 80))
		case 's':
			path := ""
			for _, x := range stack {
				path += "<" + x.Raw + ">"
			}
			p.Paths[path+"<"+t.Raw+">"]++
			p.Loads = append(p.Loads, loads(t)...)
			if void[t.Name] {
				continue
			}
			stack = append(stack, t)
			switch t.Name {
			case "tr":
				p.Rows = append(p.Rows, nil)
			case "td", "th", "p":
				if buf != nil {
					return nil, fmt.Errorf("<%s> in another cell or paragraph", t.Name)
				}
				buf = &strings.Builder{}
			}
		case 'e':
			if len(stack) == 0 || stack[len(stack)-1].Name != t.Name {
				return nil, fmt.Errorf("</%s> does not match the open elements", t.Name)
			}
			stack = stack[:len(stack)-1]
			switch t.Name {
			case "td", "th":
				if len(p.Rows) == 0 {
					return nil, fmt.Errorf("cell outside of rows")
				}
				n := len(p.Rows) - 1
				p.Rows[n] = append(p.Rows[n], strings.TrimSpace(buf.String()))
				buf = nil
			case "p":
				p.Paras = append(p.Paras, strings.TrimSpace(buf.String()))
				buf = nil
			}
		}
	}
	if len(stack) > 0 {
		return nil, fmt.Errorf("<%s> is not closed", stack[len(stack)-1].Name)
	}
	return p, nil
}

// SameThreads compares the page with the plain report.
func (p *Page) SameThreads(plain string) error {
	want := lines(plain)
	for i := range max(len(want), len(p.Paras)) {
		switch {
		case i >= len(p.Paras):
			return fmt.Errorf("page lacks %q", want[i])
		case i >= len(want):
			return fmt.Errorf("plain report lacks %q", p.Paras[i])
		case p.Paras[i] != want[i]:
			return fmt.Errorf("page says %q, plain report says %q", p.Paras[i], want[i])
		}
	}
	return nil
}

// SameObjects compares the page with the plain report.
func (p *Page) SameObjects(plain string) error {
	t, err := ParseObjects(plain)
	if err != nil {
		return fmt.Errorf("plain report: %w", err)
	}
	var rows [][]string
	facts := map[string]string{}
	for _, r := range p.Rows {
		switch len(r) {
		case 2:
			facts[r[0]] = r[1]
		case 3:
			rows = append(rows, r)
		default:
			return fmt.Errorf("table row %q", r)
		}
	}
	if facts["Instances"] != t.Instances || facts["Total Size"] != t.Total {
		return fmt.Errorf("totals of the page %v, of the plain report %s and %s", facts, t.Instances, t.Total)
	}
	if len(rows) != len(t.Rows)+1 {
		return fmt.Errorf("%d rows, plain report has %d", len(rows)-1, len(t.Rows))
	}
	for i := range t.Header {
		if rows[0][i] != t.Header[i] {
			return fmt.Errorf("header %q, plain report %q", rows[0], t.Header)
		}
	}
	for i, r := range t.Rows {
		w := [3]string{strings.TrimSpace(r.Name), r.Count + " (" + r.CountPct + "%)", r.Size + " (" + r.SizePct + "%)"}
		if g := [3]string(rows[i+1]); g != w {
			return fmt.Errorf("row %d is %q, in plain report %q", i+1, g, w)
		}
	}
	return nil
}

// Summary sections of the page.
func (p *Page) Summary() ([]Section, error) {
	var out []Section
	for i, r := range p.Rows {
		switch {
		case len(r) == 1:
			out = append(out, Section{Name: r[0]})
		case len(r) == 2 && len(out) > 0:
			s := &out[len(out)-1]
			s.KV = append(s.KV, ref.KV{K: r[0], V: r[1]})
		case len(r) == 2 && i == 0: // header
		default:
			return nil, fmt.Errorf("table row %q", r)
		}
	}
	return out, nil
}

// ---- colours ----

var sgr = regexp.MustCompile("\x1b\\[[0-9;]*m")

// Strip removes SGR sequences.
func Strip(s string) string { return sgr.ReplaceAllString(s, "") }

// Normal is s with the indentation of all lines removed.
func Normal(s string) string {
	ls := strings.Split(s, "\n")
	for i := range ls {
		ls[i] = strings.TrimLeft(ls[i], " \t")
	}
	return strings.Join(ls, "\n")
}

// Spans checks that every coloured span is closed on its line and returns the
// number of spans.
func Spans(s string) (int, error) {
	n := 0
	for i, l := range strings.Split(s, "\n") {
		open := false
		for _, m := range sgr.FindAllString(l, -1) {
			if b := m[2 : len(m)-1]; b == "" || strings.Trim(b, "0;") == "" {
				open = false
			} else {
				open = true
				n++
			}
		}
		if open {
			return n, fmt.Errorf("span is not closed on line %d: %q", i+1, first(l, 200))
		}
	}
	return n, nil
}
