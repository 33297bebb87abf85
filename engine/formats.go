package main

// Independent definitions of the well-known formats. Three-valued: +1 must be
// accepted, -1 must be rejected, 0 not settled by the documentation.

import (
	"strings"
	"unicode/utf8"
)

type Tri int

const (
	Bad     Tri = -1
	Unknown Tri = 0
	Good    Tri = 1
)

func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isHex(c byte) bool   { return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }

func fmtHostname(s string) Tri {
	core := strings.TrimSuffix(s, ".")
	if len(core) > 253 {
		return Bad
	}
	for _, l := range strings.Split(core, ".") {
		if len(l) == 0 || len(l) > 63 || l[0] == '-' || l[len(l)-1] == '-' {
			return Bad
		}
		for i := 0; i < len(l); i++ {
			if !isAlpha(l[i]) && !isDigit(l[i]) && l[i] != '-' {
				return Bad
			}
		}
	}
	if len(s) > 253 { // 253 characters plus the root dot
		return Unknown
	}
	return Good
}

func parse4(s string) ([]byte, bool) {
	p := strings.Split(s, ".")
	if len(p) != 4 {
		return nil, false
	}
	var out []byte
	for _, x := range p {
		if len(x) == 0 || len(x) > 3 || len(x) > 1 && x[0] == '0' {
			return nil, false
		}
		n := 0
		for i := 0; i < len(x); i++ {
			if !isDigit(x[i]) {
				return nil, false
			}
			n = n*10 + int(x[i]-'0')
		}
		if n > 255 {
			return nil, false
		}
		out = append(out, byte(n))
	}
	return out, true
}

// parse6 parses RFC 4291 text; no zone.
func parse6(s string) (out [16]byte, ok bool) {
	groups := func(t string, last bool) ([]byte, bool) {
		if t == "" {
			return nil, true
		}
		var o []byte
		ps := strings.Split(t, ":")
		for i, g := range ps {
			if last && i == len(ps)-1 && strings.Contains(g, ".") {
				v4, ok := parse4(g)
				if !ok {
					return nil, false
				}
				o = append(o, v4...)
				continue
			}
			if len(g) == 0 || len(g) > 4 {
				return nil, false
			}
			n := 0
			for j := 0; j < len(g); j++ {
				if !isHex(g[j]) {
					return nil, false
				}
				n = n<<4 | strings.IndexByte("0123456789abcdef", lower(g[j]))
			}
			o = append(o, byte(n>>8), byte(n))
		}
		return o, true
	}
	if i := strings.Index(s, "::"); i >= 0 {
		if strings.HasPrefix(s[i+2:], ":") {
			return out, false
		}
		a, ok1 := groups(s[:i], false)
		b, ok2 := groups(s[i+2:], true)
		if !ok1 || !ok2 || len(a)+len(b) > 14 {
			return out, false
		}
		copy(out[:], a)
		copy(out[16-len(b):], b)
		return out, true
	}
	a, ok1 := groups(s, true)
	if !ok1 || len(a) != 16 {
		return out, false
	}
	copy(out[:], a)
	return out, true
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

func mapped(b []byte) bool {
	for i := 0; i < 10; i++ {
		if b[i] != 0 {
			return false
		}
	}
	return b[10] == 0xff && b[11] == 0xff
}

func fmtIP(s string, which string) Tri {
	_, is4 := parse4(s)
	b6, is6 := parse6(s)
	m := is6 && mapped(b6[:])
	switch which {
	case "ip":
		if is4 || is6 {
			return Good
		}
	case "ipv4":
		if is4 {
			return Good
		}
		if m { // an IPv4 address written as IPv6
			return Unknown
		}
	case "ipv6":
		if m {
			return Unknown
		}
		if is6 {
			return Good
		}
	}
	return Bad
}

func fmtIPBytes(b []byte, which string) Tri {
	m := len(b) == 16 && mapped(b)
	switch which {
	case "ip":
		if len(b) == 4 || len(b) == 16 {
			return Good
		}
	case "ipv4":
		if len(b) == 4 {
			return Good
		}
		if m {
			return Unknown
		}
	case "ipv6":
		if m {
			return Unknown
		}
		if len(b) == 16 {
			return Good
		}
	}
	return Bad
}

func fmtUUID(s string) Tri {
	if len(s) != 36 {
		return Bad
	}
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			if s[i] != '-' {
				return Bad
			}
		} else if !isHex(s[i]) {
			return Bad
		}
	}
	return Good
}

func atext(c byte) bool {
	return isAlpha(c) || isDigit(c) || strings.IndexByte("!#$%&'*+-/=?^_`{|}~", c) >= 0
}

func fmtEmail(s string) Tri {
	if !strings.Contains(s, "@") {
		return Bad
	}
	// "Word Word <addr>"
	if i := strings.IndexByte(s, '<'); i > 1 && strings.HasSuffix(s, ">") && s[i-1] == ' ' {
		words := strings.Split(s[:i-1], " ")
		ok := true
		for _, w := range words {
			if w == "" {
				ok = false
			}
			for j := 0; j < len(w); j++ {
				if !isAlpha(w[j]) {
					ok = false
				}
			}
		}
		if inner := s[i+1 : len(s)-1]; ok && !strings.ContainsAny(inner, "<>\"() \t\r\n\\[],;:") {
			return fmtEmail(inner)
		}
		return Unknown
	}
	if !utf8.ValidString(s) || strings.ContainsAny(s, "<>\"()\\[],;: \t\r\n") {
		// quoting, comments, display names, groups, folding white space: grammar
		// corners we do not settle, except bare control characters and blanks inside
		// an otherwise plain address
		if !strings.ContainsAny(s, "<>\"()\\[],;:") && strings.ContainsAny(strings.Trim(s, " \t\r\n"), "\r\n") {
			return Unknown
		}
		return Unknown
	}
	if strings.Count(s, "@") != 1 {
		return Bad
	}
	i := strings.IndexByte(s, '@')
	local, dom := s[:i], s[i+1:]
	if local == "" || dom == "" {
		return Bad
	}
	if len(local) > 64 || len(s) > 254 {
		return Bad
	}
	if fmtHostname(dom) == Bad {
		return Bad
	}
	if strings.HasSuffix(dom, ".") {
		return Unknown
	}
	for _, a := range strings.Split(local, ".") {
		if a == "" {
			return Bad
		}
		for j := 0; j < len(a); j++ {
			if a[j] >= 0x80 {
				return Unknown // RFC 6532
			}
			if !atext(a[j]) {
				return Bad
			}
		}
	}
	return Good
}

func pctOK(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			if i+2 >= len(s) || !isHex(s[i+1]) || !isHex(s[i+2]) {
				return false
			}
		}
	}
	return true
}

func uriChars(s, extra string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !isAlpha(c) && !isDigit(c) && strings.IndexByte("-._~!$&'()*+,;=%"+extra, c) < 0 {
			return false
		}
	}
	return true
}

// fmtURIRef judges an RFC 3986 URI-reference; abs requires a scheme.
func fmtURIRef(s string, abs bool) Tri {
	for i := 0; i < len(s) && s[i] != '#'; i++ {
		if s[i] < 0x20 || s[i] == 0x7f {
			return Bad
		}
	}
	rest := s
	frag := ""
	if i := strings.IndexByte(rest, '#'); i >= 0 {
		frag = rest[i+1:]
		rest = rest[:i]
	}
	query := ""
	if i := strings.IndexByte(rest, '?'); i >= 0 {
		query = rest[i+1:]
		rest = rest[:i]
	}
	// scheme
	scheme := false
	if i := strings.IndexAny(rest, ":/"); i >= 0 && rest[i] == ':' {
		sc := rest[:i]
		if sc == "" || !isAlpha(sc[0]) {
			return Bad
		}
		for j := 0; j < len(sc); j++ {
			if !isAlpha(sc[j]) && !isDigit(sc[j]) && strings.IndexByte("+-.", sc[j]) < 0 {
				return Bad
			}
		}
		scheme = true
		rest = rest[i+1:]
	}
	if abs && !scheme {
		return Bad
	}
	res := Good
	worse := func(t Tri) {
		if t < res {
			res = t
		}
	}
	if !pctOK(frag) {
		return Bad
	}
	if !uriChars(frag, ":@/?") {
		worse(Unknown)
	}
	if !pctOK(query) || !uriChars(query, ":@/?") {
		worse(Unknown)
	}
	if strings.HasPrefix(rest, "//") {
		auth := rest[2:]
		path := ""
		if i := strings.IndexByte(auth, '/'); i >= 0 {
			path = auth[i:]
			auth = auth[:i]
		}
		if !pctOK(path) {
			return Bad
		}
		if !uriChars(path, ":@/") {
			worse(Unknown)
		}
		host := auth
		if i := strings.LastIndexByte(auth, '@'); i >= 0 {
			ui := auth[:i]
			host = auth[i+1:]
			if !pctOK(ui) {
				return Bad
			}
			if !uriChars(ui, ":") {
				worse(Unknown)
			}
		}
		if strings.Contains(host, "[") || strings.Contains(host, "]") {
			j := strings.IndexByte(host, ']')
			if !strings.HasPrefix(host, "[") || j < 0 {
				return worst(res, Unknown)
			}
			if _, ok := parse6(host[1:j]); !ok {
				worse(Unknown)
			}
			if p := host[j+1:]; p != "" {
				if p[0] != ':' || !digits(p[1:]) {
					return Bad
				}
			}
			return res
		}
		if i := strings.LastIndexByte(host, ':'); i >= 0 {
			if !digits(host[i+1:]) {
				return Bad
			}
			if strings.Contains(host[:i], ":") {
				worse(Unknown)
			}
			host = host[:i]
		}
		if strings.ContainsAny(host, " <>\"^`{|}\\") {
			for _, c := range []byte(host) {
				if c == ' ' {
					return Bad
				}
			}
			worse(Unknown)
		}
		if !uriChars(host, "") || strings.Contains(host, "%") {
			worse(Unknown)
		}
		return res
	}
	if scheme && !strings.HasPrefix(rest, "/") { // opaque / rootless
		if !pctOK(rest) || !uriChars(rest, ":@/") || rest == "" {
			worse(Unknown)
		}
		return res
	}
	if !pctOK(rest) {
		return Bad
	}
	if !uriChars(rest, ":@/") {
		worse(Unknown)
	}
	return res
}

func worst(a, b Tri) Tri {
	if a < b {
		return a
	}
	return b
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isDigit(s[i]) {
			return false
		}
	}
	return true
}

func tchar(c byte) bool {
	return isAlpha(c) || isDigit(c) || strings.IndexByte("!#$%&'*+-.^_`|~", c) >= 0
}

func fmtHeader(s, kind string, strict bool) Tri {
	if !utf8.ValidString(s) {
		return Unknown
	}
	if !strict {
		if strings.ContainsAny(s, "\x00\r\n") {
			return Bad
		}
		return Good
	}
	if kind == "HTTP_HEADER_NAME" {
		t := strings.TrimPrefix(s, ":")
		if t == "" {
			return Bad
		}
		for i := 0; i < len(t); i++ {
			if !tchar(t[i]) {
				return Bad
			}
		}
		return Good
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 && s[i] != '\t' || s[i] == 0x7f {
			return Bad
		}
	}
	return Good
}
