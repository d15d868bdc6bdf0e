// Package view reads the reports of the tool.
package view

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"vh/ref"
)

// Lines that are not blank, without surrounding white space.
func lines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return out
}

// ---- threads ----

// ThreadLines is the expected plain report, line by line.
func ThreadLines(ts []ref.Thread, locals bool) []string {
	var out []string
	for _, t := range ts {
		out = append(out, strings.TrimSpace(t.Head()))
		for _, f := range t.Frames {
			out = append(out, strings.TrimSpace(f.Line()))
			if locals {
				for _, l := range f.Locals {
					out = append(out, "local "+l)
				}
			}
		}
	}
	return out
}

// CheckThreads compares a plain report with the expected one.
func CheckThreads(out string, ts []ref.Thread, locals bool) error {
	got, want := lines(out), lines(strings.Join(ThreadLines(ts, locals), "\n"))
	for i := range max(len(got), len(want)) {
		switch {
		case i >= len(got):
			return fmt.Errorf("line %d is missing: %q", i+1, want[i])
		case i >= len(want):
			return fmt.Errorf("line %d should not be there: %q", i+1, got[i])
		case got[i] != want[i]:
			return fmt.Errorf("line %d is\n  %q, not\n  %q", i+1, got[i], want[i])
		}
	}
	return nil
}

// ---- objects ----

// Row of the histogram as printed.
type Row struct {
	Name, Count, Size string
	CountPct, SizePct string
}

// Table is the whole report.
type Table struct {
	Instances, Total string
	Header           []string
	Rows             []Row
	Seps             [][]int // positions of the separators, in characters, of the header and each row
}

var cellRe = regexp.MustCompile(`^(-?\d+[BKMG]?) \((-?\d+)%\)$`)

func cols(l string) (cells []string, seps []int, err error) {
	l = strings.TrimRight(l, " ")
	if !strings.HasSuffix(l, "|") {
		return nil, nil, fmt.Errorf("row without closing separator: %q", l)
	}
	rest := l[:len(l)-1]
	seps = []int{utf8.RuneCountInString(rest)}
	for range 2 {
		i := strings.LastIndex(rest, "|")
		if i < 0 {
			return nil, nil, fmt.Errorf("row with too few columns: %q", l)
		}
		cells = append([]string{strings.TrimSpace(rest[i+1:])}, cells...)
		rest = rest[:i]
		seps = append([]int{utf8.RuneCountInString(rest)}, seps...)
	}
	cells = append([]string{strings.TrimRight(rest, " ")}, cells...)
	return cells, seps, nil
}

// ParseObjects reads a plain `objects` report.
func ParseObjects(out string) (*Table, error) {
	t := &Table{}
	state := 0
	for _, l := range strings.Split(out, "\n") {
		tl := strings.TrimSpace(l)
		switch {
		case state == 0 && strings.HasPrefix(tl, "Instances:"):
			t.Instances = strings.TrimSpace(tl[len("Instances:"):])
		case state == 0 && strings.HasPrefix(tl, "Total Size:"):
			t.Total = strings.TrimSpace(tl[len("Total Size:"):])
		case state == 0 && strings.HasPrefix(tl, "Class Name"):
			c, s, err := cols(l)
			if err != nil {
				return nil, err
			}
			t.Header, t.Seps = c, append(t.Seps, s)
			state = 1
		case state == 1 && strings.Trim(tl, "-") == "" && tl != "":
			state = 2
		case state == 2 && tl != "":
			c, s, err := cols(l)
			if err != nil {
				return nil, err
			}
			a, b := cellRe.FindStringSubmatch(c[1]), cellRe.FindStringSubmatch(c[2])
			if a == nil || b == nil {
				return nil, fmt.Errorf("malformed row %q", l)
			}
			t.Rows = append(t.Rows, Row{c[0], a[1], b[1], a[2], b[2]})
			t.Seps = append(t.Seps, s)
		case tl == "":
		default:
			return nil, fmt.Errorf("unexpected line %q", l)
		}
	}
	if t.Header == nil || t.Instances == "" || t.Total == "" {
		return nil, fmt.Errorf("incomplete report %q", first(out, 300))
	}
	return t, nil
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func key(n, c, s string) string { return n + "\x00" + c + "\x00" + s }

// CheckObjects compares rows (in any order) and totals.
func CheckObjects(t *Table, m *ref.Model) error {
	rows, count, size := m.Objects()
	if t.Instances != strconv.Itoa(count) {
		return fmt.Errorf("Instances is %s, not %d", t.Instances, count)
	}
	if t.Total != ref.Size(size) {
		return fmt.Errorf("Total Size is %s, not %s (%d bytes)", t.Total, ref.Size(size), size)
	}
	want := map[string]int{}
	for _, r := range rows {
		want[key(r.Name, strconv.Itoa(r.Count), ref.Size(r.Size))]++
	}
	for _, r := range t.Rows {
		k := key(r.Name, r.Count, r.Size)
		if want[k] == 0 {
			return fmt.Errorf("row %q (count %s, size %s) is wrong; expected rows of that name: %v", r.Name, r.Count, r.Size, named(rows, r.Name))
		}
		want[k]--
	}
	for _, r := range rows {
		if want[key(r.Name, strconv.Itoa(r.Count), ref.Size(r.Size))] > 0 {
			return fmt.Errorf("row is missing: %+v", r)
		}
	}
	return nil
}

func named(rows []ref.Row, n string) (out []ref.Row) {
	for _, r := range rows {
		if r.Name == n {
			out = append(out, r)
		}
	}
	return
}

// SortedRows in the order of the report.
func SortedRows(m *ref.Model, bySize bool) []ref.Row {
	rows, _, _ := m.Objects() // by name, count, size
	sortStable(rows, func(a, b ref.Row) bool {
		if bySize {
			return a.Size > b.Size
		}
		return a.Count > b.Count
	})
	return rows
}

func sortStable(rows []ref.Row, less func(a, b ref.Row) bool) {
	// insertion sort keeps it independent of the library used by the tool
	for i := 1; i < len(rows); i++ {
		for j := i; j > 0 && less(rows[j], rows[j-1]); j-- {
			rows[j], rows[j-1] = rows[j-1], rows[j]
		}
	}
}

// CheckOrder compares the order, shares, marks and alignment.
func CheckOrder(t *Table, m *ref.Model, bySize bool) error {
	rows := SortedRows(m, bySize)
	_, count, size := m.Objects()
	if len(rows) != len(t.Rows) {
		return fmt.Errorf("%d rows, not %d", len(t.Rows), len(rows))
	}
	pct := func(p, n int) string {
		if n == 0 {
			return "0"
		}
		return strconv.Itoa(100 * p / n)
	}
	for i, r := range rows {
		g := t.Rows[i]
		w := Row{r.Name, strconv.Itoa(r.Count), ref.Size(r.Size), pct(r.Count, count), pct(r.Size, size)}
		if g != w {
			return fmt.Errorf("row %d is %+v, not %+v", i+1, g, w)
		}
	}
	arrow := func(s string) bool { return strings.Contains(s, "↓") }
	if arrow(t.Header[1]) == bySize || arrow(t.Header[2]) != bySize || arrow(t.Header[0]) {
		return fmt.Errorf("wrong column is marked: %q", t.Header)
	}
	for i, s := range t.Seps {
		if s[0] != t.Seps[0][0] || s[1] != t.Seps[0][1] || s[2] != t.Seps[0][2] {
			return fmt.Errorf("separators of row %d are at %v, those of the header at %v", i, s, t.Seps[0])
		}
	}
	return nil
}

// ---- summary ----

// Section of a summary.
type Section struct {
	Name string
	KV   []ref.KV
}

// SummarySections expected.
func SummarySections(s ref.Summary, allProps bool) []Section {
	out := []Section{
		{"Environment", s.Env},
		{"Heap", []ref.KV{{K: "Classes", V: strconv.Itoa(s.Classes)}, {K: "GC Roots", V: strconv.Itoa(s.Roots)},
			{K: "Instances", V: strconv.Itoa(s.Insts)}, {K: "Heap Size", V: ref.Size(s.HeapSize)}}},
		{"System", []ref.KV{{K: "JVM Uptime", V: s.Uptime}}},
	}
	if allProps && len(s.Props) > 0 {
		out = append(out, Section{"Properties", s.Props})
	}
	return out
}

// CheckSummary compares a plain report. Values may hold any text, so the
// report is consumed guided by what is expected. Only the sections in only (or
// all if empty) have to agree, the others are skipped by their keys.
func CheckSummary(out string, secs []Section, only ...string) error {
	return checkSummary(out, secs, false, only)
}

// CheckPageSummary is CheckSummary for the sections of a page, where spaces around texts are not seen.
func CheckPageSummary(out string, secs []Section) error { return checkSummary(out, secs, true, nil) }

func checkSummary(out string, secs []Section, page bool, only []string) error {
	want := func(n string) bool {
		if len(only) == 0 {
			return true
		}
		for _, o := range only {
			if o == n {
				return true
			}
		}
		return false
	}
	rest := out
	skip := func() { rest = strings.TrimLeft(rest, " \t\r\n") }
	for _, s := range secs {
		skip()
		h := "- " + s.Name
		if !strings.HasPrefix(rest, h+"\n") && rest != h {
			return fmt.Errorf("section %q expected at %q", s.Name, first(rest, 120))
		}
		rest = rest[len(h):]
		for _, kv := range s.KV {
			skip()
			k := strings.TrimLeft(kv.K, " \t\r\n")
			after, ok := strings.CutPrefix(rest, k)
			if page {
				after = strings.TrimLeft(after, " \t\r\n")
			}
			if !ok || !strings.HasPrefix(after, ":") {
				return fmt.Errorf("key %q of %s expected at %q", kv.K, s.Name, first(rest, 120))
			}
			rest = after[1:]
			rest = strings.TrimLeft(rest, " ")
			if !want(s.Name) {
				if i := strings.IndexByte(rest, '\n'); i >= 0 {
					rest = rest[i:]
				} else {
					rest = ""
				}
				continue
			}
			v := strings.TrimSpace(kv.V)
			r := strings.TrimLeft(rest, " \t")
			if v == "" {
				r = rest
			}
			if !strings.HasPrefix(r, v) {
				return fmt.Errorf("value of %s / %q is %q, not %q", s.Name, kv.K, first(r, len(v)+60), v)
			}
			r = strings.TrimLeft(r[len(v):], " \t")
			if r != "" && r[0] != '\n' {
				return fmt.Errorf("value of %s / %q is %q, not %q", s.Name, kv.K, first(rest, len(v)+60), v)
			}
			rest = r
		}
	}
	skip()
	if rest != "" {
		return fmt.Errorf("unexpected text at the end: %q", first(rest, 200))
	}
	return nil
}
