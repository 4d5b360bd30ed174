package model

import "strings"

// Parts is the decomposition of an accepted input, computed declaratively on the
// whole string (independently of the automaton).
type Parts struct {
	Prefix, NID, NSS string
	R, Q, F          string
	HasHash          bool // a '#' is there (the fragment may be empty)
	// SCIM only
	Type, Name, Other string
}

// Decompose splits an input that the model accepts in the given mode.
func Decompose(m Mode, in string) Parts {
	var p Parts
	p.Prefix = in[:3]
	rest := in[4:]
	if m == M7643 {
		p.NID = "ietf:params:scim"
		p.NSS = rest[len(p.NID)+1:]
		s := strings.SplitN(p.NSS, ":", 3)
		p.Type, p.Name = s[0], s[1]
		if len(s) == 3 {
			p.Other = s[2]
		}
		return p
	}
	i := strings.IndexByte(rest, ':')
	p.NID = rest[:i]
	p.NSS = rest[i+1:]
	if m == M2141 {
		return p
	}
	body := p.NSS
	if j := strings.IndexByte(body, '#'); j >= 0 {
		p.HasHash = true
		p.F = body[j+1:]
		body = body[:j]
	}
	j := strings.IndexByte(body, '?')
	if j < 0 {
		p.NSS = body
		return p
	}
	p.NSS = body[:j]
	body = body[j:]
	if strings.HasPrefix(body, "?+") {
		body = body[2:]
		// The r-component ends at the first ?= followed by a character a q-component can start with
		for k := 0; k+2 < len(body); k++ {
			if body[k] == '?' && body[k+1] == '=' && (body[k+2] == '%' || IsPchar(body[k+2])) {
				p.R = body[:k]
				p.Q = body[k+2:]
				return p
			}
		}
		p.R = body
		return p
	}
	p.Q = body[2:]
	return p
}

// String is the string form of the accepted input the parts come from.
func (p Parts) String() string {
	s := p.Prefix + ":" + p.NID + ":" + p.NSS
	if p.R != "" {
		s += "?+" + p.R
	}
	if p.Q != "" {
		s += "?=" + p.Q
	}
	if p.F != "" {
		s += "#" + p.F
	}
	return s
}

// LowerASCII lowers the ASCII letters.
func LowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// NormSS lowers the letters of the percent-encodings of a well-formed specific string.
func NormSS(s string) string {
	b := []byte(s)
	for i := 0; i < len(b); i++ {
		if b[i] == '%' {
			for k := i + 1; k <= i+2 && k < len(b); k++ {
				if 'A' <= b[k] && b[k] <= 'Z' {
					b[k] += 32
				}
			}
			i += 2
		}
	}
	return string(b)
}

// WellFormedSS tells whether every percent sign starts a percent-encoding.
func WellFormedSS(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			if i+2 >= len(s) || !IsAlnum(s[i+1]) || !IsAlnum(s[i+2]) {
				return false
			}
			i += 2
		}
	}
	return true
}
