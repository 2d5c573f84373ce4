package main

import (
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
)

var lexFrags = []string{"a", "b1", "x-y.z", "$s", "$$g", "@q", "_u", "int", "uint", "nint", "float", "float16", "float32", "float64", "tstr", "text", "bytes", "bstr", "bool",
	"true", "false", "nil", "null", "any", "0", "7", "42", "1.5", "0x1F", "0b10", "0o17", "9.", "1..2", "\"t\"", "\"\"", "\"é\"", "\"open", ";c", ";c\n", "; ünï\n", "\n", "\r\n", "\t", " ", "=", "/=", "//=", "/", "//", "=>", ":", ",", "..", "...", ".", ".size", ".bits", ".regexp", ".lt", ".le", ".gt", ".ge", ".eq", ".ne", ".default", ".cbor", ".cborseq", ".within", ".and", ".plus", ".cat", ".det", ".abnf", ".abnfb", ".feature", ".foo",
	"(", ")", "[", "]", "{", "}", "+", "*", "?", "&", "#", "#6", "#6.1", "~", "<", ">", "-", "-1", "%", "\xff", "\xc3", "é", "\x00", "٣", "text_literal", "INTERNAL_MARKER_numeric_end", "IDENT", "EOF"}

var parseFrags = []string{"a", "b", "$s", "int", "uint", "tstr", "bool", "true", "nil", "float", "bytes", "1", "2.5", "\"t\"", "=", "/=", "//=", "/", "//", "=>", ":", ",", "..", "...", ".size", ".bits", ".regexp", ".lt", ".eq", ".cbor",
	"(", ")", "[", "]", "{", "}", "+", "*", "?", "&", "#6.1(", "#", "~", ";c\n", "\n", "-", ".", "<"}

// templates put a short sequence of tokens where a type, a group or a file is expected.
var templates = []string{"%", "a = %", "a = %\nb = int", "a = {%}", "a = [%]", "a = (%)", "a = [k: %]", "a = {k: int, %}", "a = (%, k: int)", "a = int .size %", "a = % .size 3", "a = 1..%", "a = tstr / %", "a = #6.1(%)", "a = {? %}", "a = [* %]", "a = & %", "a = ~ %", ";x\na = %", "a = int\nb = %", "a = int\na = %", "a = % ;c\nb = int", "a = {k: %, j: int}"}

func repoSources() (out []string) {
	filepath.Walk("/repo/testdata", func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".cddl") {
			if b, err := os.ReadFile(p); err == nil {
				out = append(out, string(b))
			}
		}
		return nil
	})
	return
}

func isLexProp(p string) bool { return p == "C01" || p == "C02" || p == "C03" || p == "C04" || p == "C05" }

// generate feeds inputs, simple ones first, until the deadline.
func generate(prop string, seed int64, deadline time.Time, emit func([]byte) bool) {
	r := rand.New(rand.NewSource(seed))
	n := 0
	put := func(s string) bool {
		n++
		if n%256 == 0 && time.Now().After(deadline) {
			return false
		}
		return emit([]byte(s))
	}
	srcs := repoSources()
	if isLexProp(prop) {
		if !put("") {
			return
		}
		for i := 0; i < 256; i++ {
			if !put(string([]byte{byte(i)})) {
				return
			}
		}
		for i := 0; i < 256; i++ {
			for j := 0; j < 256; j++ {
				if !put(string([]byte{byte(i), byte(j)})) {
					return
				}
			}
		}
		for _, sep := range []string{"", " ", "\n"} {
			for _, a := range lexFrags {
				for _, b := range lexFrags {
					if !put(a + sep + b) {
						return
					}
				}
			}
		}
		for _, s := range srcs {
			if !put(s) {
				return
			}
		}
		for _, a := range lexFrags {
			for _, b := range lexFrags {
				for _, c := range lexFrags {
					if r.Intn(3) == 0 && !put(a+b+c) {
						return
					}
				}
			}
		}
		for {
			var b strings.Builder
			for k := 1 + r.Intn(9); k > 0; k-- {
				switch r.Intn(12) {
				case 0:
					b.WriteByte(byte(r.Intn(256)))
				case 1:
					b.WriteRune(rune(r.Intn(0x11000)))
				case 2:
					b.WriteByte("\n \t\""[r.Intn(4)])
				default:
					b.WriteString(lexFrags[r.Intn(len(lexFrags))])
				}
				if r.Intn(3) == 0 {
					b.WriteByte(" \n"[r.Intn(2)])
				}
			}
			if !put(b.String()) {
				return
			}
		}
	}
	for _, s := range srcs {
		if !put(s) {
			return
		}
	}
	// grammatical sources
	for i := 0; i < 20000; i++ {
		if !put(genFile(r)) {
			return
		}
	}
	for _, t := range templates {
		if !put(strings.Replace(t, "%", "", 1)) {
			return
		}
		for _, a := range parseFrags {
			if !put(strings.Replace(t, "%", a, 1)) {
				return
			}
			for _, b := range parseFrags {
				if !put(strings.Replace(t, "%", a+" "+b, 1)) {
					return
				}
			}
		}
	}
	for _, t := range templates {
		for _, a := range parseFrags {
			for _, b := range parseFrags {
				for _, c := range parseFrags {
					if r.Intn(4) == 0 && !put(strings.Replace(t, "%", a+" "+b+" "+c, 1)) {
						return
					}
				}
			}
		}
	}
	for {
		switch r.Intn(4) {
		case 0:
			if !put(genFile(r)) {
				return
			}
		case 1: // mutate a grammatical source by tokens
			fs := strings.Fields(genFile(r))
			for k := 1 + r.Intn(3); k > 0 && len(fs) > 0; k-- {
				i := r.Intn(len(fs))
				switch r.Intn(3) {
				case 0:
					fs = append(fs[:i:i], fs[i+1:]...)
				case 1:
					fs[i] = parseFrags[r.Intn(len(parseFrags))]
				case 2:
					fs = append(fs[:i:i], append([]string{parseFrags[r.Intn(len(parseFrags))]}, fs[i:]...)...)
				}
			}
			if !put(strings.Join(fs, " ")) {
				return
			}
		case 2: // mutate a file of the repository by bytes
			if len(srcs) == 0 {
				continue
			}
			b := []byte(srcs[r.Intn(len(srcs))])
			for k := 1 + r.Intn(4); k > 0 && len(b) > 0; k-- {
				i := r.Intn(len(b))
				switch r.Intn(3) {
				case 0:
					b = append(b[:i:i], b[i+1:]...)
				case 1:
					b[i] = byte(r.Intn(256))
				case 2:
					b = b[:i]
				}
			}
			if !put(string(b)) {
				return
			}
		default:
			var fs []string
			for k := 1 + r.Intn(12); k > 0; k-- {
				fs = append(fs, parseFrags[r.Intn(len(parseFrags))])
			}
			if !put(strings.Replace(templates[r.Intn(len(templates))], "%", strings.Join(fs, " "), 1)) {
				return
			}
		}
	}
}

// ---- grammatical sources ----

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func genFile(r *rand.Rand) string {
	var b strings.Builder
	names := []string{"a", "b", "c", "d"}
	n := 1 + r.Intn(4)
	if r.Intn(4) == 0 {
		b.WriteString("; head\n")
	}
	for i := 0; i < n; i++ {
		b.WriteString(names[i] + " = " + genType(r, 3, names[:n]))
		if r.Intn(4) == 0 {
			b.WriteString(" ; note")
		}
		b.WriteString("\n")
		if r.Intn(6) == 0 {
			b.WriteString("; between\n; rules\n")
		}
	}
	return b.String()
}

func genName(r *rand.Rand, names []string) string {
	if r.Intn(4) == 0 {
		return "$s"
	}
	return names[r.Intn(len(names))]
}

func genAtom(r *rand.Rand, d int, names []string) string {
	k := r.Intn(20)
	if d <= 0 && k >= 12 {
		k = r.Intn(12)
	}
	switch k {
	case 0, 1, 2, 3, 4, 5, 6:
		return pick(r, "tstr", "text", "int", "uint", "nint", "bool", "bytes", "bstr", "float", "float16", "float32", "float64", "nil", "null", "true", "false")
	case 7, 8:
		return genName(r, names)
	case 9:
		return pick(r, "1", "25", "0", "0x10")
	case 10:
		return pick(r, "1.5", "2.0")
	case 11:
		return pick(r, "\"t\"", "\"\"", "\"a b\"")
	case 12, 13:
		return "{ " + genEntries(r, d-1, names) + " }"
	case 14, 15:
		return "[ " + genEntries(r, d-1, names) + " ]"
	case 16:
		return "( " + genEntries(r, d-1, names) + " )"
	case 17:
		return "#6." + pick(r, "1", "32") + "( " + genType(r, d-1, names) + " )"
	case 18:
		return "~ " + genName(r, names)
	default:
		return "& ( " + genEntries(r, d-1, names) + " )"
	}
}

func genType(r *rand.Rand, d int, names []string) string {
	if d <= 0 {
		return genAtom(r, 0, names)
	}
	switch r.Intn(12) {
	case 0:
		return genAtom(r, d-1, names) + " / " + genType(r, d-1, names)
	case 1:
		return pick(r, "tstr", "uint", "bytes", "bstr", "text", genName(r, names)) + " .size " + pick(r, "3", "1..4", "( 1..4 )", "8", genName(r, names))
	case 2:
		return pick(r, "0..10", "1...5", "0.5..2.5", "1.5...9.5", "a..b", "0..a")
	case 3:
		return "tstr .regexp \"[a-z]+\""
	case 4:
		return pick(r, "int", "uint", genName(r, names)) + " " + pick(r, ".lt", ".le", ".gt", ".ge", ".eq", ".ne", ".default") + " " + pick(r, "5", "2.5", genName(r, names))
	case 5:
		return pick(r, "uint", "bytes", genName(r, names)) + " .bits " + genName(r, names)
	case 6:
		return genAtom(r, d-1, names) + " / " + genAtom(r, d-1, names) + " / " + genAtom(r, d-1, names)
	default:
		return genAtom(r, d, names)
	}
}

func genEntries(r *rand.Rand, d int, names []string) string {
	var out []string
	for k := r.Intn(4); k >= 0; k-- {
		e := ""
		switch r.Intn(8) {
		case 0:
			e = "? "
		case 1:
			e = pick(r, "* ", "+ ", "1*2 ", "0*3 ", "2* ", "*4 ")
		}
		switch r.Intn(6) {
		case 0:
			e += genName(r, names)
		case 1:
			e += "tstr => " + genType(r, d-1, names)
		default:
			e += pick(r, "k", "name", "x-y") + " : " + genType(r, d-1, names)
		}
		out = append(out, e)
	}
	sep := " , "
	if r.Intn(8) == 0 {
		sep = " // "
	}
	s := strings.Join(out, sep)
	if r.Intn(6) == 0 {
		s += " ,"
	}
	if r.Intn(10) == 0 {
		s = " ; first\n" + s
	}
	return s
}
