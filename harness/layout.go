package main

import "strings"

// Layouts: renderings of one program that must not change its meaning.

func ntoks(n *N, out []string) []string {
	if n.K == NList || n.K == NArr {
		o, c := "(", ")"
		if n.K == NArr {
			o, c = "[", "]"
		}
		out = append(out, o)
		for _, k := range n.L {
			out = ntoks(k, out)
		}
		return append(out, c)
	}
	return append(out, n.String())
}

// joinToks puts sep between tokens; tight leaves it out next to brackets
// where that is legal.
func joinToks(toks []string, sep string, tight bool) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			p := toks[i-1]
			opens := p == "(" || p == "["
			closes := t == ")" || t == "]"
			starts := t == "("
			ends := p == ")"
			if !(tight && (opens || closes || starts || (ends && t == "["))) {
				b.WriteString(sep)
			}
		}
		b.WriteString(t)
	}
	return b.String()
}

var infOps = map[string]string{"+": "+", "-": "-", "*": "*", "/": "/", "<": "<", "<=": "<=", ">": ">", ">=": ">=",
	"==": "==", "!=": "!=", "and": "and", "or": "or"}

// infText renders n with binary operators, assignments and not inside infix
// blocks; everything else stays an s-expression.
func infText(n *N) string {
	if n.K == NList && len(n.L) > 0 && n.L[0].K == NSym {
		h := n.L[0].S
		if h == "quote" {
			return n.String()
		}
		if op, ok := infOps[h]; ok && len(n.L) == 3 {
			return "{" + infText(n.L[1]) + " " + op + " " + infText(n.L[2]) + "}"
		}
		if h == "not" && len(n.L) == 2 {
			return "{not " + infText(n.L[1]) + "}"
		}
		if h == "set" && len(n.L) == 3 && n.L[1].K == NSym {
			return "{" + n.L[1].S + " = " + infText(n.L[2]) + "}"
		}
	}
	if n.K == NList || n.K == NArr {
		o, c := "(", ")"
		if n.K == NArr {
			o, c = "[", "]"
		}
		var p []string
		for _, k := range n.L {
			p = append(p, infText(k))
		}
		return o + strings.Join(p, " ") + c
	}
	return n.String()
}

const nLayouts = 7

func layoutText(forms []*N, v int) string {
	var toks []string
	for _, f := range forms {
		toks = ntoks(f, toks)
	}
	switch v {
	case 0:
		return joinToks(toks, "\n", false) + "\n"
	case 1:
		return " \t" + joinToks(toks, " \t  ", false) + "\t\n"
	case 2:
		return "// (lead\n" + joinToks(toks, " // c ) \" x\n", false) + " // end\n"
	case 3:
		return "/* ( */" + joinToks(toks, " /* c ) \" x */ ", false) + " /* \n ] */\n"
	case 4:
		return joinToks(toks, " ", true) + "\n"
	case 5:
		return joinToks(toks, " ", false) + "\n"
	}
	var p []string
	for _, f := range forms {
		p = append(p, infText(f))
	}
	return strings.Join(p, "\n") + "\n"
}
