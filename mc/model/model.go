// Package model is the reference model of the URN parsers: an explicit-state
// automaton (Start/Step/EOF), written from the RFCs, the README and the error
// messages, with no dependency on the code under test.
//
// A State is a small comparable value; the reachable states under all 256
// bytes are finite, so the checks enumerate every state and every transition.
package model

import "strings"

// Mode is a parsing mode of the model.
type Mode uint8

const (
	M2141 Mode = iota + 1
	M7643
	M8141
)

func (m Mode) String() string {
	return [...]string{"?", "RFC2141", "RFC7643", "RFC8141"}[m]
}

// Cat is the part of the input a rejection blames.
type Cat uint8

const (
	OK Cat = iota
	Prefix
	NID
	NSS
	Hex
	Reserved
	ScimNS
	ScimType
	ScimName
	ScimOther
	ScimIncomplete
	Informal
	NSS8
	NID8
	RTwice
	QTwice
	RMal
	QMal
	CMal
)

var catNames = [...]string{"ok", "prefix", "identifier", "specific-string", "percent-encoding", "reserved-identifier",
	"scim-namespace", "scim-type", "scim-name", "scim-other", "scim-other-incomplete", "informal-identifier",
	"specific-string-8141", "identifier-8141", "second-r-component", "second-q-component", "r-component", "q-component", "components"}

func (c Cat) String() string { return catNames[c] }

type phase uint8

const (
	pPrefix phase = iota // n = how many prefix bytes were read
	// RFC 2141
	pNID // n = length, track = how many bytes of a leading "urn" matched
	pNSS0
	pNSS
	pNSSh1
	pNSSh2
	pNSSh
	// SCIM
	pScimNS   // n = index in the literal
	pScimType // track = type index, n = index in the literal
	pScimName0
	pScimName
	pScimOther0
	pScimOther
	pScimH1
	pScimH2
	pScimH
	// RFC 8141
	pNID8 // n = length, track = how many bytes of a leading "urn-" matched, last = last byte was a dash
	p8NSS0
	p8NSS
	p8NSSh1
	p8NSSh2
	p8NSSh
	p8Q // a "?" ending the specific string
	// r-component
	p8R0  // after the opening ?+
	p8R0q // ... and a "?"
	p8R0b // ... and a second ?+ straight away
	p8R   // inside
	p8Rh1
	p8Rh2
	p8Rh
	p8Rq // inside, last byte "?"
	p8Rp // inside, last bytes "?+"
	p8Re // inside, last bytes "?=": maybe the opening of the q-component
	p8RQh1
	p8RQh2
	p8Req
	// q-component
	p8Q0
	p8Q0q
	p8Q0b
	p8Qi
	p8Qh1
	p8Qh2
	p8Qh
	p8Qq
	p8Qe
	// fragment
	p8F
	p8Fh1
	p8Fh2
	p8Fh
)

// State is a state of the automaton. Equal states have equal futures.
type State struct {
	Mode  Mode
	ph    phase
	n     uint8
	track uint8
	last  bool
}

// Result is the outcome of one step: either Cat == OK and Next is the next state,
// or the input is rejected blaming Cat at the current offset plus Delta.
type Result struct {
	Cat   Cat
	Delta int
	Next  State
	Mark  Mark
}

// Mark tells which register the step sets.
type Mark uint8

const (
	NoMark Mark = iota
	NIDStart
	NSSStart
	TypeStart
	NameStart
	OtherStart
	NSSEnd // the NSS ends before the current byte
	CompROpen
	CompQOpen // q opens with the current byte as its first one and the 2 before are its delimiter
	FStart    // the fragment starts after the current byte
)

// Start returns the initial state of a mode.
func Start(m Mode) State { return State{Mode: m, ph: pPrefix} }

func isAlpha(b byte) bool { return 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' }
func isDigit(b byte) bool { return '0' <= b && b <= '9' }

// IsAlnum tells whether b is an ASCII letter or digit.
func IsAlnum(b byte) bool { return isAlpha(b) || isDigit(b) }

// IsSSS tells whether b can appear as itself in a RFC 2141 specific string.
func IsSSS(b byte) bool {
	return IsAlnum(b) || b < 0x80 && strings.IndexByte("()+,-.:=@;$_!*'", b) >= 0
}

// IsPchar tells whether b can appear as itself in a RFC 8141 specific string.
func IsPchar(b byte) bool { return IsSSS(b) || b == '~' || b == '&' }

const scimNS = "ietf:params:scim:"

// ScimTypes lists the SCIM types.
var ScimTypes = [...]string{"schemas", "api", "param"}

func rej(c Cat) Result { return Result{Cat: c} }
func (s State) to(p phase) Result {
	s.ph, s.n, s.track, s.last = p, 0, 0, false
	return Result{Next: s}
}
func (r Result) mark(m Mark) Result {
	r.Mark = m
	return r
}

// Step consumes one byte.
func (s State) Step(b byte) Result {
	switch s.ph {
	case pPrefix:
		if s.n < 3 {
			if b|0x20 == "urn"[s.n] && isAlpha(b) {
				s.n++
				return Result{Next: s}
			}
			return rej(Prefix)
		}
		if b != ':' {
			return rej(Prefix)
		}
		switch s.Mode {
		case M2141:
			return s.to(pNID).mark(NIDStart)
		case M7643:
			return s.to(pScimNS).mark(NIDStart)
		default:
			return s.to(pNID8).mark(NIDStart)
		}

	case pNID:
		if s.n > 0 && b == ':' {
			if s.n == 3 && s.track == 3 {
				return rej(Reserved)
			}
			return s.to(pNSS0).mark(NSSStart)
		}
		if !(IsAlnum(b) || s.n > 0 && b == '-') || s.n == 32 {
			return rej(NID)
		}
		if s.track == s.n && s.n < 3 && isAlpha(b) && b|0x20 == "urn"[s.n] {
			s.track++
		} else {
			s.track = 0
		}
		s.n++
		return Result{Next: s}

	case pNSS0, pNSS, pNSSh:
		if b == '%' {
			return s.to(pNSSh1)
		}
		if IsSSS(b) {
			return s.to(pNSS)
		}
		if s.ph == pNSSh {
			return rej(Hex)
		}
		return rej(NSS)
	case pNSSh1, pNSSh2:
		return s.hex(b, pNSSh1, pNSSh2, pNSSh, Hex)

	case pScimNS:
		if b != scimNS[s.n] {
			return rej(ScimNS)
		}
		s.n++
		if int(s.n) == len(scimNS) {
			return s.to(pScimType).mark(TypeStart)
		}
		return Result{Next: s}
	case pScimType:
		if s.n == 0 {
			for i, t := range ScimTypes {
				if t[0] == b {
					s.n, s.track = 1, uint8(i)
					return Result{Next: s}
				}
			}
			return rej(ScimType)
		}
		t := ScimTypes[s.track]
		if int(s.n) == len(t) {
			if b == ':' {
				return s.to(pScimName0).mark(NameStart)
			}
			return rej(ScimType)
		}
		if b != t[s.n] {
			return rej(ScimType)
		}
		s.n++
		return Result{Next: s}
	case pScimName0, pScimName:
		if IsAlnum(b) {
			return s.to(pScimName)
		}
		if s.ph == pScimName && b == ':' {
			return s.to(pScimOther0).mark(OtherStart)
		}
		return rej(ScimName)
	case pScimOther0, pScimOther, pScimH:
		if b == '%' {
			return s.to(pScimH1)
		}
		if IsSSS(b) {
			return s.to(pScimOther)
		}
		return rej(ScimOther)
	case pScimH1, pScimH2:
		return s.hex(b, pScimH1, pScimH2, pScimH, ScimOther)

	case pNID8:
		if b == ':' && s.n >= 2 && !s.last {
			return s.to(p8NSS0).mark(NSSStart)
		}
		if !(IsAlnum(b) || s.n > 0 && b == '-') || s.n == 32 || s.n == 31 && b == '-' {
			return rej(NID8)
		}
		if s.track == 4 && s.n == 4 && (isAlpha(b) || b == '0') {
			return Result{Cat: Informal, Delta: -1}
		}
		if s.track == s.n && s.n < 4 && (isAlpha(b) && b|0x20 == "urn-"[s.n] || s.n == 3 && b == '-') {
			s.track++
		} else {
			s.track = 0
		}
		s.n++
		s.last = b == '-'
		return Result{Next: s}
	case p8NSS0:
		if b == '%' {
			return s.to(p8NSSh1)
		}
		if IsPchar(b) {
			return s.to(p8NSS)
		}
		return rej(NSS8)
	case p8NSS, p8NSSh:
		switch {
		case b == '%':
			return s.to(p8NSSh1)
		case IsPchar(b) || b == '/':
			return s.to(p8NSS)
		case b == '?':
			return s.to(p8Q).mark(NSSEnd)
		case b == '#':
			return s.to(p8F).mark(FStart)
		}
		if s.ph == p8NSSh {
			return rej(Hex)
		}
		return rej(NSS8)
	case p8NSSh1, p8NSSh2:
		return s.hex(b, p8NSSh1, p8NSSh2, p8NSSh, Hex)

	case p8Q:
		switch b {
		case '+':
			return s.to(p8R0).mark(CompROpen)
		case '=':
			return s.to(p8Q0)
		}
		return rej(CMal)

	case p8R0:
		switch {
		case b == '%':
			return s.to(p8Rh1)
		case IsPchar(b):
			return s.to(p8R)
		case b == '?':
			return s.to(p8R0q)
		}
		return rej(RMal)
	case p8R0q:
		if b == '+' {
			return s.to(p8R0b)
		}
		return rej(RMal)
	case p8R0b:
		if b == '%' || b == '?' || b == '#' || IsPchar(b) {
			return rej(RTwice)
		}
		return rej(RMal)
	case p8R, p8Rq, p8Rh:
		switch {
		case b == '+' && s.ph == p8Rq:
			return s.to(p8Rp)
		case b == '=' && s.ph == p8Rq:
			return s.to(p8Re)
		case b == '?':
			return s.to(p8Rq)
		case b == '%':
			return s.to(p8Rh1)
		case IsPchar(b) || b == '/':
			return s.to(p8R)
		case b == '#':
			return s.to(p8F).mark(FStart)
		}
		if s.ph == p8Rh {
			return rej(Hex)
		}
		return rej(RMal)
	case p8Rh1, p8Rh2:
		return s.hex(b, p8Rh1, p8Rh2, p8Rh, Hex)
	case p8Rp:
		if b == '/' {
			return s.to(p8R)
		}
		if b == '%' || b == '?' || b == '#' || IsPchar(b) {
			return rej(RTwice)
		}
		return rej(RMal)
	case p8Re:
		switch {
		case b == '%':
			return s.to(p8RQh1).mark(CompQOpen)
		case IsPchar(b):
			return s.to(p8Qi).mark(CompQOpen)
		case b == '/':
			return s.to(p8R)
		case b == '?':
			return s.to(p8Req)
		case b == '#':
			return s.to(p8F).mark(FStart)
		}
		return rej(RMal)
	case p8RQh1, p8RQh2:
		return s.hex(b, p8RQh1, p8RQh2, p8Qh, Hex)
	case p8Req:
		switch {
		case b == '+':
			return s.to(p8Rp)
		case b == '=':
			return s.to(p8Re)
		case b == '?':
			return s.to(p8Rq)
		case b == '%':
			return s.to(p8Rh1)
		case IsPchar(b) || b == '/':
			return s.to(p8R)
		case b == '#':
			return s.to(p8F).mark(FStart)
		}
		return rej(RMal)

	case p8Q0:
		switch {
		case b == '%':
			return s.to(p8Qh1).mark(CompQOpen)
		case IsPchar(b):
			return s.to(p8Qi).mark(CompQOpen)
		case b == '?':
			return s.to(p8Q0q)
		}
		return rej(QMal)
	case p8Q0q:
		if b == '=' {
			return s.to(p8Q0b)
		}
		return rej(QMal)
	case p8Q0b:
		if b == '%' || b == '?' || b == '#' || IsPchar(b) {
			return rej(QTwice)
		}
		return rej(QMal)
	case p8Qi, p8Qq, p8Qh:
		switch {
		case b == '=' && s.ph == p8Qq:
			return s.to(p8Qe)
		case b == '?':
			return s.to(p8Qq)
		case b == '%':
			return s.to(p8Qh1)
		case IsPchar(b) || b == '/':
			return s.to(p8Qi)
		case b == '#':
			return s.to(p8F).mark(FStart)
		}
		if s.ph == p8Qh {
			return rej(Hex)
		}
		return rej(QMal)
	case p8Qh1, p8Qh2:
		return s.hex(b, p8Qh1, p8Qh2, p8Qh, Hex)
	case p8Qe:
		if b == '/' {
			return s.to(p8Qi)
		}
		if b == '%' || b == '?' || b == '#' || IsPchar(b) {
			return rej(QTwice)
		}
		return rej(QMal)

	case p8F, p8Fh:
		switch {
		case b == '%':
			return s.to(p8Fh1)
		case IsPchar(b) || b == '/' || b == '?':
			return s.to(p8F)
		}
		if s.ph == p8Fh {
			return rej(Hex)
		}
		return rej(CMal)
	case p8Fh1, p8Fh2:
		return s.hex(b, p8Fh1, p8Fh2, p8Fh, Hex)
	}
	panic("model: unknown phase")
}

func (s State) hex(b byte, h1, h2, done phase, c Cat) Result {
	if !IsAlnum(b) {
		return rej(c)
	}
	if s.ph == h1 {
		return s.to(h2)
	}
	return s.to(done)
}

// EOF returns the outcome of ending the input in this state.
func (s State) EOF() Result {
	switch s.ph {
	case pPrefix:
		return rej(Prefix)
	case pNID:
		return rej(NID)
	case pNSS0:
		return rej(NSS)
	case pNSSh1, pNSSh2, p8NSSh1, p8NSSh2, p8Rh1, p8Rh2, p8RQh1, p8RQh2, p8Qh1, p8Qh2, p8Fh1, p8Fh2:
		return rej(Hex)
	case pScimNS:
		return rej(ScimNS)
	case pScimType:
		return rej(ScimType)
	case pScimName0:
		return rej(ScimName)
	case pScimOther0, pScimH1, pScimH2:
		return Result{Cat: ScimIncomplete, Delta: -1}
	case pNID8:
		return rej(NID8)
	case p8NSS0:
		return rej(NSS8)
	case p8Q:
		return rej(CMal)
	case p8R0, p8R0q:
		return rej(RMal)
	case p8R0b, p8Rp:
		return rej(RTwice)
	case p8Q0, p8Q0q:
		return rej(QMal)
	case p8Q0b, p8Qe:
		return rej(QTwice)
	}
	return Result{}
}
