package main

import (
	"strings"

	"urnverif/model"
)

// Inputs as they occur in the world: registered namespaces with the strings usual in them, and URNs wrapped in what surrounds
// them in texts. Code that means well is about these.

// affixes are what may stand before or after a URN in a text.
var affixes = []string{"", " ", "\t", "\n", "\r", "\r\n", "\n\n", "\x00", "\v", "\f", "<", ">", "<<", ">>", "\"", "'", "''", "`", "(", ")", "[", "]", "{", "}", "\\", "\\n", "/", "//", "./", ".", "..", ",", ";", ":", "::", "!", "?", "#", "%", "%20", "%0A", "%00",
	"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xc2\xa0", "\xe2\x80\x8b", "\xe2\x80\xa8", "\xe2\x80\x9c", "\xe2\x80\x9d", "\xc2\x85", "\xe3\x80\x80", "\u00ab", "\u00bb", "\x1a", "\x7f", "\x1b", "\x80",
	"urn:", "URN:", "uri:", "URI:", "url:", "URL:", "URL:urn:", "<urn:", "<URL:", "<URI:", "http://", "https://n2t.net/", "id=", "u", "ur", "r", "n", "0", "-", "+", "@", "=", "&", "&amp;", "*", "_", "|", "~", "$"}

// spaceWrapped puts everything before and after some URNs.
func spaceWrapped() []Task {
	cores := map[model.Mode][]string{
		model.M2141: {"urn:ab:c", "urn:ab:c%4Bd:e"},
		model.M7643: {"urn:ietf:params:scim:api:n", "urn:ietf:params:scim:schemas:core:2.0:User"},
		model.M8141: {"urn:ab:c?+r?=q#f", "urn:ab:c/d"},
	}
	var ts []Task
	for _, m := range allModes {
		for i, c := range cores[m] {
			i, c := i, c
			ts = append(ts, Task{Space: "wrapped", Run: func(emit func([]byte)) {
				var buf []byte
				put := func(a, b string) {
					buf = append(append(append(buf[:0], a...), c...), b...)
					emit(buf)
				}
				for _, a := range affixes {
					for _, b := range affixes {
						put(a, b)
						put(a+a, b+b)
						put(a+" ", " "+b)
					}
				}
				if i == 0 {
					for x := 0; x < 1<<16; x++ {
						buf = append(append(append(buf[:0], byte(x>>8)), c...), byte(x))
						emit(buf)
					}
				}
			}})
		}
	}
	return ts
}

var knownNIDs = strings.Fields(`3gpp 3gpp2 acn adid aenor amwa bbf broadband-forum-org cablelabs ccsds cgi clei com comm cta dev dgiwg doi dslforum dvb dvb2 ebu eidr eircode epc epcglobal eris es-ucm
	eic etsi eurosystem example fdc fipa firmware fleet geant globus gsma hbbtv hl7 iana ieee ietf imei imsi ip iptc isan isbn iso issn itei itu itu-t ivis ldap lex liberty lsid mace meid microsoft mpeg mrn mrt-types
	msisdn mxml nato nbn nena nfc ngc nid nzl oasis oclc ogc ogf oid oma onem2m onf opc orcid orcam ordinary pin pkcs11 prism publicid pwid reserved resource s1000d schac schemas-microsoft-com sdmx service sha1 smpte sip
	swift swid tel test tgg thread tid tva tv-anytime uci ucode uddi upc uri url urn-1 urn-7 urn-42 uuid vcard ver w3 web3d x-foo x-urn xmlorg xmpp xml xri xsd`)

var knownSS = strings.Fields(`f81d4fae-7dec-11d0-a765-00a0c91e6bf6 F81D4FAE-7DEC-11D0-A765-00A0C91E6BF6 f81D4fAe-7dec-11d0-A765-00a0C91e6Bf6 00000000-0000-0000-0000-000000000000 0-395-36341-1 0-8044-2957-X 0-8044-2957-x 9780141036144 978-0-14-103614-4
	0028-0836 1234-567X 2049-3630 1.3.6.1.4.1 1.2.840.113549.1.1.1 2.999.01.1 2.16.840.1.101.3.4.2.1 rfc:2648 params:xml:ns:xmpp-sasl params:oauth:grant-type:JWT-Bearer params:scim:api:messages:2.0:ListResponse params:scim:schemas:core:2.0:User
	params:scim:schemas:extension:enterprise:2.0:User params:scim:PARAM:x Params:scim:api:x id:sgtin:0614141.107346.2017 std:iso:9999:-1:ed-1:en id:oasis names:specification:docbook:dtd:xml:4.1.2 names:tc:SAML:2.0:cm:bearer de:101:1-201102033592
	it:stato:legge:2003-09-21;456 eu:council:directive:2010-03-09;2010-19-UE us:gov schema:2.0 sha256:E3B0C44298FC1C149AFBF4C8996FB924 00:1A:2B:3C:4D:5E 00-1a-2b-3c-4d-5e 192.168.0.1 2001:db8::1 +1-212-555-0100 +12125550100 user@example.com User@EXAMPLE.Com
	EXAMPLE.com example.com. a=1;b=2 key=Value;Key=value a,b,,c 2024-02-29T12:00:00Z 20240229 007 0x1F 1e10 -1 +0 NaN null true A-_.!*'() $HOME @@ (c) !important '*' %41%42c %2F%2f %7E %7e %2D%5f %00 %0d%0A %C3%A9 %c3%a9 %E2%82%AC %EF%BB%BF %25%34%31 %2541 %zz %ZZ %3A
	a+b%20c a%20b a_b a-b a--b -a- .a. ..a.. a.b.c ::a:: a:::b :a a: A:b:C SGVsbG8= SGVs+bG8_ Zm9v- aGVsbG8 abc%4 x%4bY%4BZ Straße`)

var known8141 = strings.Fields(`a/b a//b a/./b a/../b ./a ../a a/ a// a/. a/.. a/b/../../c //a a~b ~ a&b=c x&amp;y foo-bar-baz-qux?+CCResolve:cc=uk foo?=op=map&lat=39.56&lon=-104.85 foo?=a=1&b=2 foo?=b=2&a=1 foo?=a=1&&b=2 foo?+a?=b#c foo?+r#somepart foo#somepart
	foo# foo?=q# foo?=q#/a/../b foo?+r/./s foo?+%41 foo?=%41 foo#%41 foo?=q?q foo?=a+b foo?=a%20b foo?=utm_source=x foo#xpointer(/1/2) foo#:~:text=a foo#!bang foo?+R?=Q#F foo?=? foo?+? foo?=/ foo?+/ foo?q foo?? foo##`)

// spaceWorld: known namespaces with known strings.
func spaceWorld() []Task {
	var ts []Task
	for part := 0; part < 8; part++ {
		part := part
		ts = append(ts, Task{Space: "known namespaces", Run: func(emit func([]byte)) {
			var buf []byte
			for i, id := range knownNIDs {
				if i%8 != part {
					continue
				}
				for _, v := range []string{id, strings.ToUpper(id), strings.ToUpper(id[:1]) + id[1:]} {
					for _, pre := range []string{"urn:", "URN:"} {
						for _, list := range [][]string{knownSS, known8141} {
							for _, ss := range list {
								buf = append(append(append(append(buf[:0], pre...), v...), ':'), ss...)
								emit(buf)
							}
						}
					}
				}
			}
		}})
	}
	return append(ts, spaceWrapped()...)
}

// spaceAround: every two bytes, one on each side of a percent-encoding, or both before or after one, in every part; and, if deep, every
// three of the bytes a part may have.
func spaceAround(deep bool) []Task {
	var ts []Task
	for _, x := range []struct {
		m        model.Mode
		pre, suf string
	}{
		{model.M2141, "urn:ab:ef", "gh"}, {model.M8141, "urn:ab:ef", "gh?+r?=q#f"}, {model.M8141, "urn:ab:c?+ef", "gh?=q"}, {model.M8141, "urn:ab:c?=ef", "gh#f"}, {model.M8141, "urn:ab:c#ef", "gh"}, {model.M7643, "urn:ietf:params:scim:api:n:ef", "gh"},
	} {
		x := x
		ts = append(ts, Task{Space: "bytes around a percent-encoding", Modes: []model.Mode{x.m}, Run: func(emit func([]byte)) {
			var buf []byte
			for a := 0x20; a < 0x80; a++ {
				for b := 0x20; b < 0x80; b++ {
					for _, s := range []string{string(rune(a)) + "%4B" + string(rune(b)), string(rune(a)) + string(rune(b)) + "%cD", "%4b" + string(rune(a)) + string(rune(b)), "%4B" + string(rune(a)) + "%C4" + string(rune(b))} {
						buf = append(append(append(buf[:0], x.pre...), s...), x.suf...)
						emit(buf)
					}
				}
			}
		}})
		if !deep {
			continue
		}
		var accepted []byte
		t := model.Build(x.m)
		for c := 0x21; c < 0x7f; c++ {
			if t.Run([]byte(x.pre+string(rune(c))+x.suf)).Cat == model.OK {
				accepted = append(accepted, byte(c))
			}
		}
		for _, a := range accepted {
			a := a
			ts = append(ts, Task{Space: "every three bytes of a part", Modes: []model.Mode{x.m}, Run: func(emit func([]byte)) {
				var buf []byte
				for _, b := range accepted {
					for _, c := range accepted {
						buf = append(append(append(buf[:0], x.pre...), a, b, c), x.suf...)
						emit(buf)
						emit(buf[:len(x.pre)+3])
					}
				}
			}})
		}
	}
	return ts
}
