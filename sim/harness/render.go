package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"

	"gopkg.in/yaml.v3"
)

// Render options of a document: how its content is spelled.
type Style struct {
	NoHeader bool `json:"nohdr,omitempty"`
	BOM      bool `json:"bom,omitempty"`
	CRLF     bool `json:"crlf,omitempty"`
	Start    bool `json:"start,omitempty"` // ---
	End      bool `json:"end,omitempty"`   // ...
	NoEOL    bool `json:"noeol,omitempty"` // no line end after the last line
	Flow     bool `json:"flow,omitempty"`  // whole document in flow style
	Indent   int  `json:"ind,omitempty"`
	SeqIn    bool `json:"seqin,omitempty"` // sequences indented relative to their key
	PadTop   int  `json:"padtop,omitempty"`
	PadEnd   int  `json:"padend,omitempty"`
	UTF16    int  `json:"utf16,omitempty"` // 1: little endian, 2: big endian
}

const (
	apiHeader = "#%RAML 1.0"
	libHeader = "#%RAML 1.0 Library"
)

type renderer struct {
	b     strings.Builder
	step  int
	seqIn bool
}

func renderDoc(api bool, n *N, st Style) string {
	r := &renderer{step: st.Indent, seqIn: st.SeqIn}
	if r.step < 1 {
		r.step = 2
	}
	if st.BOM {
		r.b.WriteString("\ufeff")
	}
	if !st.NoHeader {
		if api {
			r.b.WriteString(apiHeader + "\n")
		} else {
			r.b.WriteString(libHeader + "\n")
		}
	}
	r.pad(st.PadTop)
	if st.Start {
		r.b.WriteString("---\n")
	}
	empty := n.K == "s" && n.T == tNull && n.V == ""
	switch {
	case empty:
	case st.Flow || n.K == "s" || n.S == "f" || len(n.P) == 0 && len(n.L) == 0:
		r.b.WriteString(r.flow(n) + "\n")
	default:
		r.mapping(n, 0)
	}
	r.pad(st.PadEnd)
	if st.End {
		r.b.WriteString("...\n")
	}
	s := r.b.String()
	if st.NoEOL {
		s = strings.TrimRight(s, "\n")
	}
	if st.CRLF {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	if st.UTF16 > 0 {
		s = utf16Text(s, st.UTF16 == 2)
	}
	return s
}

// utf16Text is a text in UTF-16 with a byte order mark.
func utf16Text(s string, big bool) string {
	units := utf16.Encode([]rune("\ufeff" + strings.TrimPrefix(s, "\ufeff")))
	b := make([]byte, 0, 2*len(units))
	for _, u := range units {
		if big {
			b = append(b, byte(u>>8), byte(u))
		} else {
			b = append(b, byte(u), byte(u>>8))
		}
	}
	return string(b)
}

func (r *renderer) pad(n int) {
	for n > 0 {
		l := 100
		if n < l {
			l = n
		}
		r.b.WriteString("#" + strings.Repeat(".", l-1) + "\n")
		n -= l
	}
}

func (r *renderer) sp(n int) { r.b.WriteString(strings.Repeat(" ", n)) }

func (r *renderer) comment(n *N, ind int) {
	if strings.HasPrefix(n.C, "h:") {
		r.sp(ind)
		r.b.WriteString("# " + n.C[2:] + "\n")
	}
}

func (r *renderer) mapping(n *N, ind int) {
	for _, p := range n.P {
		r.comment(p.V, ind)
		r.sp(ind)
		r.entry(p, ind)
	}
}

func (r *renderer) entry(p P, ind int) {
	if p.K.K != "s" {
		r.b.WriteString("? " + r.flow(p.K) + "\n")
		r.sp(ind)
		r.b.WriteString(":")
	} else {
		r.b.WriteString(r.key(p.K, false) + ":")
	}
	r.value(p.V, ind, false)
}

func props(n *N) string {
	s := ""
	if n.A != "" {
		s += " &" + n.A
	}
	if n.K != "s" && n.T != "" {
		s += " " + tagText(n.T)
	}
	return s
}

func tagText(t string) string { return t }

// value writes what follows a key or a dash, with the line end.
func (r *renderer) value(n *N, ind int, dash bool) {
	lc := ""
	if strings.HasPrefix(n.C, "l:") {
		lc = " # " + n.C[2:]
	}
	switch {
	case n.K == "s":
		t := r.scalar(n, ind+r.step, false)
		if t != "" {
			t = " " + t
		}
		if n.S == "|" || n.S == ">" {
			lc = ""
		}
		r.b.WriteString(t + lc + "\n")
	case n.K == "a" || n.S == "f" || len(n.P) == 0 && len(n.L) == 0:
		r.b.WriteString(" " + r.flow(n) + lc + "\n")
	case n.isMap():
		if dash && n.A == "" && n.T == "" && lc == "" && n.P[0].K.K == "s" && !strings.HasPrefix(n.P[0].V.C, "h:") {
			// compact form: first entry on the line of the dash
			r.b.WriteString(" ")
			r.entry(n.P[0], ind+2)
			r.mapping(&N{K: "m", P: n.P[1:]}, ind+2)
			return
		}
		r.b.WriteString(props(n) + lc + "\n")
		r.mapping(n, ind+r.step)
	default:
		r.b.WriteString(props(n) + lc + "\n")
		si := ind
		if r.seqIn || dash {
			si = ind + r.step
		}
		for _, x := range n.L {
			r.comment(x, si)
			r.sp(si)
			r.b.WriteString("-")
			r.value(x, si, true)
		}
	}
}

func (r *renderer) flow(n *N) string {
	switch n.K {
	case "a":
		return "*" + n.V
	case "s":
		if n.T == tNull && n.V == "" && n.S == "" {
			c := *n
			c.V = "null"
			return r.scalar(&c, 0, true)
		}
		return r.scalar(n, 0, true)
	}
	p := strings.TrimPrefix(props(n), " ")
	if p != "" {
		p += " "
	}
	var xs []string
	if n.isMap() {
		for _, e := range n.P {
			if e.K.K != "s" {
				xs = append(xs, "? "+r.flow(e.K)+" : "+r.flow(e.V))
				continue
			}
			xs = append(xs, r.key(e.K, true)+": "+r.flow(e.V))
		}
		return p + "{" + strings.Join(xs, ", ") + "}"
	}
	for _, e := range n.L {
		xs = append(xs, r.flow(e))
	}
	return p + "[" + strings.Join(xs, ", ") + "]"
}

func (r *renderer) key(k *N, flow bool) string {
	c := *k
	if c.S == "|" || c.S == ">" {
		c.S = ""
	}
	t := r.scalar(&c, 0, flow)
	if t == "" {
		t = "null"
	}
	if strings.HasPrefix(t, "*") {
		t += " "
	}
	return t
}

var plainRe = regexp.MustCompile(`^[\p{L}_/(.$][^\x00-\x1f\x7f-\x9f\x{feff}\x{2028}\x{2029}]*$`)

func plainOK(s string, flow bool) bool {
	if s == "" || len(s) > 4000 || !plainRe.MatchString(s) || s != strings.TrimSpace(s) {
		return false
	}
	if strings.Contains(s, ": ") || strings.HasSuffix(s, ":") || strings.Contains(s, " #") || strings.HasPrefix(s, "...") {
		return false
	}
	if flow && strings.ContainsAny(s, ",[]{}:?\"'&*!|>%@`") {
		return false
	}
	for _, c := range s {
		if c != ' ' && (unicode.IsSpace(c) || !unicode.IsPrint(c)) {
			return false
		}
	}
	var n yaml.Node
	if yaml.Unmarshal([]byte(s), &n) != nil || len(n.Content) != 1 {
		return false
	}
	return n.Content[0].Kind == yaml.ScalarNode && n.Content[0].ShortTag() == tStr && n.Content[0].Value == s
}

func singleOK(s string) bool {
	for _, c := range s {
		if c != ' ' && (unicode.IsSpace(c) || !unicode.IsPrint(c) || c == 0xfeff) {
			return false
		}
	}
	return utf8.ValidString(s)
}

func (r *renderer) scalar(n *N, ind int, flow bool) string {
	pre := ""
	if n.A != "" {
		pre = "&" + n.A + " "
	}
	switch n.T {
	case tNull, tInt, tFloat, tBool, "!!timestamp", "!!merge":
		return strings.TrimRight(pre+n.V, " ")
	case tStr:
	default:
		pre += n.T + " "
	}
	switch n.S {
	case "'":
		if singleOK(n.V) {
			return pre + "'" + strings.ReplaceAll(n.V, "'", "''") + "'"
		}
	case "|":
		if s, ok := literal(n.V, ind); ok && !flow && ind > 0 {
			return pre + s
		}
	case ">":
		if s, ok := folded(n.V, ind); ok && !flow && ind > 0 {
			return pre + s
		}
	case "":
		if plainOK(n.V, flow) {
			return pre + n.V
		}
	}
	return pre + dquote(n.V)
}

func dquote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString("\\n")
		case c == '\t':
			b.WriteString("\\t")
		case c < 0x20 || c >= 0x7f && c < 0xa0:
			fmt.Fprintf(&b, "\\x%02x", c)
		case c == 0x2028 || c == 0x2029 || c == 0xfeff:
			fmt.Fprintf(&b, "\\u%04x", c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func blockOK(s string) bool {
	if s == "" || s[0] == ' ' || s[0] == '\n' || s[0] == '\t' || strings.Trim(s, "\n") == "" {
		return false
	}
	for _, c := range s {
		if c != '\n' && c != ' ' && (unicode.IsSpace(c) || !unicode.IsPrint(c)) {
			return false
		}
	}
	return utf8.ValidString(s)
}

func chomp(s string) (body, ind string) {
	body = strings.TrimRight(s, "\n")
	switch len(s) - len(body) {
	case 0:
		return body, "-"
	case 1:
		return body, ""
	}
	return s[:len(s)-1], "+"
}

func literal(s string, ind int) (string, bool) {
	if !blockOK(s) {
		return "", false
	}
	body, c := chomp(s)
	out := "|" + c
	for _, l := range strings.Split(body, "\n") {
		if strings.TrimSpace(l) == "" && l != "" {
			return "", false
		}
		out += "\n"
		if l != "" {
			out += strings.Repeat(" ", ind) + l
		}
	}
	return out, true
}

func folded(s string, ind int) (string, bool) {
	if !blockOK(s) {
		return "", false
	}
	body, c := chomp(s)
	if c == "+" || strings.Contains(body, "\n") || strings.Contains(body, "  ") || strings.HasSuffix(body, " ") {
		return "", false
	}
	out := ">" + c
	line := ""
	flush := func() {
		if line != "" {
			out += "\n" + strings.Repeat(" ", ind) + line
		}
		line = ""
	}
	for _, w := range strings.Split(body, " ") {
		if len(line) > 30 {
			flush()
		}
		if line != "" {
			line += " "
		}
		line += w
	}
	flush()
	return out, true
}

// plainParse reads a text with the YAML library alone.
func plainParse(text string) (*N, error) {
	var y yaml.Node
	if err := yaml.Unmarshal([]byte(text), &y); err != nil {
		return nil, err
	}
	if y.Kind == 0 {
		return scal(tNull, ""), nil
	}
	return fromYAML(&y), nil
}

// toYAML builds a YAML node from a tree.
func toYAML(n *N) *yaml.Node {
	anchors := map[string]*yaml.Node{}
	var rec func(n *N) *yaml.Node
	rec = func(n *N) *yaml.Node {
		y := &yaml.Node{}
		switch n.K {
		case "a":
			y.Kind, y.Value, y.Alias = yaml.AliasNode, n.V, anchors[n.V]
			return y
		case "s":
			y.Kind, y.Tag, y.Value = yaml.ScalarNode, n.T, n.V
			switch n.S {
			case "'":
				y.Style = yaml.SingleQuotedStyle
			case "\"":
				y.Style = yaml.DoubleQuotedStyle
			case "|":
				y.Style = yaml.LiteralStyle
			case ">":
				// K11: texts with line breaks within or at their end
				// more than once
				if !strings.Contains(strings.TrimSuffix(n.V, "\n"), "\n") {
					y.Style = yaml.FoldedStyle
				}
			}
			if n.T == tNull {
				y.Value = "null"
			}
		case "l":
			y.Kind, y.Tag = yaml.SequenceNode, "!!seq"
			if n.T != "" {
				y.Tag = n.T
			}
			if n.S == "f" {
				y.Style = yaml.FlowStyle
			}
		default:
			y.Kind, y.Tag = yaml.MappingNode, "!!map"
			if n.T != "" {
				y.Tag = n.T
			}
			if n.S == "f" {
				y.Style = yaml.FlowStyle
			}
		}
		if n.A != "" {
			y.Anchor = n.A
			anchors[n.A] = y
		}
		for _, p := range n.P {
			k := rec(p.K)
			y.Content = append(y.Content, k, rec(p.V))
		}
		for _, x := range n.L {
			y.Content = append(y.Content, rec(x))
		}
		return y
	}
	return rec(n)
}
