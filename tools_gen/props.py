import json
M="machine.go"
def P(id,title,statement,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    return d
TBL="The tables sample about 150 inputs; the quantifier is over all byte strings, and a generated automaton with ~190 states has ~50,000 (state, byte) transitions that no table visits."
ps=[
P("U01","RFC 2141 mode accepts exactly the RFC 2141 URNs",
 "In the default (RFC 2141) mode an input is accepted if and only if, as a whole, it is 'urn' in any letter case, ':', an identifier of 1 to 32 letters, digits and dashes that does not begin with a dash and is not 'urn' in any letter case, ':', and a non-empty specific string made only of letters, digits, the characters ( ) + , - . : = @ ; $ _ ! * ' and percent signs each followed by two alphanumerics. Nothing else is accepted (no other byte, no surrounding or trailing text, nothing after a line break), and nothing of that form is rejected, whatever its length.",
 ["inputs"],"every byte string, of any length",TBL,[M,"machine.go.rl","urn.go"],[("generated state machine, start state for RFC 2141","machine.go: (*machine).Parse, states 1-43, 172-173"),("reserved-identifier look-ahead","machine.go.rl: action throw_pre_urn_err")],
 [("m.cs","current automaton state","machine.go: type machine")],["Parse","Machine.Parse"]),
P("U02","RFC 8141 mode accepts exactly the RFC 8141 URNs",
 "In RFC 8141 mode an input is accepted if and only if, as a whole, it matches the RFC 8141 grammar: 'urn:' in any case, an identifier of 2 to 32 letters, digits and inner dashes (and not 'urn-' followed by a letter or 0), ':', a specific string of the RFC 2141 characters plus ~ & and (not first) /, then optionally ?+ and a non-empty r-component, ?= and a non-empty q-component, and # and a possibly empty fragment, whose characters may also be / and ? (not first in r and q). The r-component ends at the first ?= followed by a character that can start a q-component; an r-component that contains ?+ again (or a q-component that contains ?= again), unless a / comes right after it, is rejected, and so is anything else, including a ? or a second # that opens no component.",
 ["inputs"],"every byte string, of any length",TBL,[M,"machine.go.rl"],[("generated state machine, start state for RFC 8141","machine.go: (*machine).Parse, states 83-171, 177-192"),("only-one-component guards","machine.go.rl: actions mark_r_start, mark_q_start"),("informal identifier check","machine.go.rl: action informal_nid_match")],
 [("rStart/qStart","a component was already opened","urn.go: type URN")],["Parse","Machine.Parse"]),
P("U03","SCIM mode accepts exactly the SCIM URNs",
 "In RFC 7643 mode an input is accepted if and only if, as a whole, it is 'urn' in any letter case followed by ':ietf:params:scim:' in lower case, one of schemas, api or param, ':', a non-empty alphanumeric name, and optionally ':' with a non-empty rest made of RFC 2141 specific-string characters and percent signs each followed by two alphanumerics.",
 ["inputs"],"every byte string, of any length",TBL,[M,"machine.go.rl","scim.go"],[("generated state machine, start state for SCIM","machine.go: (*machine).Parse, states 44-82, 174-176")],None,["Parse","Machine.Parse"]),
P("U04","An accepted URN splits into its exact parts and reassembles to the input",
 "For every accepted input, in every mode, the identifier, the specific string and the r-, q- and f-components are exactly the corresponding substrings of the input (letter case and percent-encodings untouched, absent components empty), and the reported kind is the one of the parsing mode. The string form is byte for byte the accepted input, including the letter case of the prefix (except that a trailing # with an empty fragment is dropped), and parsing it again in the same mode gives the same parts.",
 ["inputs"],"every accepted byte string x every parsing mode","The tables compare about 100 accepted inputs; offsets into the buffer must be right for every length and every combination of optional components.",[M,"urn.go"],[("mark / text() offsets","machine.go.rl: actions mark, set_pre, set_nid, set_nss, set_*_component"),("String","urn.go: (*URN).String")],[("m.pb","start of the part being scanned","machine.go: type machine")],["URN.ID","URN.SS","URN.String","URN.RComponent","URN.QComponent","URN.FComponent","URN.RFC"]),
P("U05","SCIM URNs expose their exact type, name and rest",
 "For every input accepted in RFC 7643 mode the SCIM view reports the type, the name and the rest exactly as they are in the input (the rest is empty if there is none), the URN says it is a SCIM one, its identifier is ietf:params:scim, and the string form of the SCIM view is the input with the prefix in lower case. For every URN parsed in another mode, even of a SCIM-looking input, there is no SCIM view and it does not say it is a SCIM URN.",
 ["inputs"],"every accepted byte string x every parsing mode","Only a handful of SCIM strings are tested, and only whether they are SCIM or not.",["scim.go",M,"urn.go","scim/schema/type.go"],[("SCIM registers","machine.go.rl: actions create_scim, mark_scim_name, set_scim_name, mark_scim_other, set_scim_other"),("accessors","urn.go: (*URN).SCIM, (*URN).IsSCIM")],[("scim.pos","offset where the SCIM part begins","scim.go: type SCIM")],["URN.SCIM","SCIM.String","URN.IsSCIM"]),
P("U06","Normalization lowercases prefix, identifier and percent-encodings only",
 "The normal form of a URN, whether parsed in any mode, decoded, built from an identifier and a specific string, edited, or already normalized, has the prefix 'urn', the identifier in lower case and the specific string with the letters of every percent-encoding in lower case and every other character untouched; it carries no r-, q- or f-component. Normalizing is idempotent, the normal form of a parsed URN is accepted again in the same mode, and it does not modify the URN it is applied to.",
 ["inputs","histories"],"every accepted byte string x mode, every number, position and letter case of percent-encodings, and chains of normalizations","Tests look at one normalization of the sampled inputs, never at the normal form of a normal form or of a URN built by hand.",["urn.go",M],[("positions to lowercase","machine.go.rl: actions tolower, set_nss"),("Normalize","urn.go: (*URN).Normalize")],[("URN.tolower / norm","positions of the percent-encoded upper case letters; normalized string","urn.go: type URN")],["URN.Normalize"]),
P("U07","Lexical equivalence is exactly equality of normal forms",
 "Two URNs are equal if and only if their identifiers match ignoring letter case and their specific strings match except for the letter case inside percent-encodings; the letter case of the prefix and the r-, q- and f-components never matter, and any other difference always does. It is therefore an equivalence relation (reflexive, symmetric, transitive), a URN always equals its own normal form, none equals nil, and comparing changes neither side; it holds for parsed, decoded, normalized, edited and hand-built URNs alike.",
 ["inputs","histories"],"every pair and triple of URNs","About 20 pairs are tested out of all pairs of URNs.",["urn.go"],[("Equal","urn.go: (*URN).Equal"),("Normalize","urn.go: (*URN).Normalize")],None,["URN.Equal"]),
P("U08","JSON encoding round-trips every valid URN",
 "Marshaling a URN (also as an RFC 8141 URN or as a SCIM one, and as part of a larger document) gives a JSON string equal to its string form, and unmarshaling that, under any JSON spelling of the same string, into the same type (RFC 8141 URN or SCIM for URNs parsed in those modes) gives an equal value with the same string form and components, whatever the receiving value held before; it changes no other value (not even a copy made of the receiver), nor does a later change of the document change it. Marshaling any value, the zero ones included, never fails and never panics.",
 ["inputs","histories"],"every valid URN per type x every JSON spelling (escapes, white space) x every previous content of the receiver","Three round-trips are tested, all into zero values.",["urn.go","urn8141.go","scim.go"],[("(Un)MarshalJSON","urn.go, urn8141.go, scim.go")],None,["json.Marshal","json.Unmarshal"]),
P("U09","JSON decoding rejects everything else and leaves the receiver alone",
 "Unmarshaling succeeds only for a JSON string that is a valid URN for the type (RFC 2141 for a URN, RFC 8141 for an RFC 8141 URN, RFC 7643 for a SCIM one). Any other input, be it a string that is not such a URN, another JSON value or malformed JSON, gives a non-nil error, never a panic, and the receiving value stays exactly as it was and usable.",
 ["inputs","histories"],"every byte string given to the three decoders x every previous content of the receiver","One invalid string and one empty input per type are tested.",["urn.go","urn8141.go","scim.go",M],[("error check before assignment","urn.go: (*URN).UnmarshalJSON; urn8141.go; scim.go")],None,["json.Unmarshal","UnmarshalJSON"]),
P("U10","Parsing is total: a URN or an error, never both, neither, or a panic",
 "For every byte string (nil and empty included), every mode value and both entry points, parsing terminates without panicking and gives either a non-nil URN and no error, or no URN and a non-nil error; after each parse the parser's last error is exactly the one just returned. The package-level parse function agrees with a fresh parser configured the same way: it reports success exactly when that one gives a URN, and returns nil otherwise.",
 ["inputs","configurations","histories"],"every byte string x every mode value x fresh and reused parsers","Tests check this contract on the sampled inputs only; inputs on which the automaton stops without an error are not among them.",[M,"urn.go","options.go"],[("final-state test","machine.go: end of (*machine).Parse"),("ok flag","urn.go: Parse")],[("m.err","last error","machine.go: type machine")],["Parse","Machine.Parse","Machine.Error"]),
P("U11","Rejections name the offending part and its column",
 "The error of a rejected input ends with the zero-based column of the first byte at which the input stops being the beginning of any acceptable URN, or the input's length if it ends too early (one less for a SCIM rest that ends too early and for a letter or a zero after 'urn-'). Its message depends only on the part being read there - prefix, identifier, reserved identifier, informal identifier, specific string, percent-encoding (also right after a complete one, except in SCIM mode), SCIM namespace, type, name or rest, second r- or q-component, r-, q-component, or components in general - and differs between different parts.",
 ["inputs"],"every rejected byte string x every mode","Tests compare the errors of about 60 inputs; every (state, byte) pair and every truncation has its own error.",[M,"machine.go.rl"],[("error actions","machine.go.rl: actions err_*"),("EOF actions","machine.go: _eofActions")],None,["Machine.Parse","Machine.Error"]),
P("U12","Parsing never writes to the caller's bytes nor keeps referring to them",
 "Parsing never modifies the input bytes, not even temporarily, nor bytes around them in the same array, and reads nothing outside the given slice, so constant or shared buffers can be parsed. Changing the input bytes after the parse has no effect on the URN, on the error or on the parser's later behaviour.",
 ["inputs","histories","schedules"],"every byte string x mode, every instant during the parse, every later change of the buffer","A test cannot see a temporary write, and no test looks at the buffer after a parse.",[M,"machine.go.rl"],[("private copy of the input","machine.go: (*machine).Parse"),("string conversions","machine.go.rl: action set_*")],[("m.data","the bytes being scanned","machine.go: type machine")],["Parse","Machine.Parse"]),
P("U13","A reused parser behaves as a fresh one, whatever it parsed before",
 "For every sequence of parses and mode changes on one parser, accepted or rejected, each parse gives the same result and the same error as a new parser in the current mode would give. URNs and errors returned earlier are never changed by later parses, by other parsers or by package-level parses.",
 ["histories"],"every sequence of parse and mode-change operations, of any length","Each table is run through one parser in one order; the state left by each kind of outcome meets few kinds of successors.",[M,"options.go"],[("register reset","machine.go: head of (*machine).Parse")],[("m.p, m.pb, m.cs, m.err","automaton registers","machine.go: type machine"),("output","URN under construction","machine.go: (*machine).Parse")],["Machine.Parse","Machine.WithParsingMode","Machine.Error"]),
P("U14","Concurrent use on separate parsers and shared values is race free",
 "Goroutines that each use their own parser (or the package-level function), also on one shared input buffer, and that read, compare, normalize, stringify or marshal one shared URN or unmarshal into their own values, see no data race, and each gets exactly the result it would get running alone, under every interleaving.",
 ["schedules"],"every interleaving of two or three concurrent operations (preemption-bounded) over all pairs of operations","No test is concurrent.",["urn.go","urn8141.go","scim.go",M,"scim/schema/type.go"],[("no shared mutable state","machine.go: registers in the machine, private input copy"),("read-only tables","machine.go: _eofActions, _toStateActions")],None,["all exported functions"]),
P("U15","The parsing mode is what was last asked for, and RFC 2141 otherwise",
 "A parser made with no option, with the Default mode or with a value that is no known mode parses exactly as in RFC 2141 mode. With several options, or after later mode changes, the last one asked for alone decides, for the package-level function and for parsers alike, and a mode set on one parser never affects another one or later package-level parses.",
 ["configurations","histories"],"every sequence of options and mode changes x inputs that tell the modes apart","Tests give at most one option and never change the mode of a parser.",["options.go","parsing_mode.go",M],[("WithParsingMode","machine.go: (*machine).WithParsingMode; options.go")],[("startParsingAt, parsingMode, parsingModeSet","mode registers","machine.go: type machine")],["WithParsingMode","NewMachine","Parse"]),
P("U16","Observing a URN never changes it, and derived values are independent",
 "No sequence of reads, comparisons, normalizations, string or JSON conversions changes any later observation of the same URN or of a copy of it. Editing a URN after deriving its normal form, or editing that normal form, changes nothing in the other, and after the identifier or specific string is edited every conversion reflects the new value. The same goes for a SCIM value: a copy of a URN's SCIM view can be edited without changing the URN, and its conversions reflect the edit.",
 ["histories"],"every sequence of operations on a URN and on the values derived from it","Tests call each operation once on a fresh value.",["urn.go","urn8141.go","scim.go"],[("value construction","urn.go: (*URN).Normalize, (*URN).String")],None,["URN methods","SCIM methods","URN8141 methods"]),
P("U17","SCIM type names and values convert one-to-one, exactly",
 "The names schemas, api and param convert to the three distinct supported type values and back to themselves; every other string, also if it differs only in letter case, by spaces or by one byte, converts to the unsupported type, and every other value converts to the empty string.",
 ["inputs"],"every string and every integer type value","One wrong string is tested.",["scim/schema/type.go"],[("TypeFromString, Type.String","scim/schema/type.go")],None,["scimschema.TypeFromString","scimschema.Type.String"]),
P("U18","The comment tool removes the line directives and nothing else",
 "For every file content, the comment-removal tool leaves no line that begins, after optional white space, with //line, and keeps every other line unchanged and in order, with its line ending, except that blank lines right above a removed line may go with it. Running it again changes nothing; the file keeps its permissions, and on failure the tool exits non-zero and reports on standard error.",
 ["inputs","fault_sequences"],"every file content","One text is tested.",["tools/removecomments/removecomments.go"],[("commentLineRegex","tools/removecomments/removecomments.go"),("removeCommentsFromFile","tools/removecomments/removecomments.go")],None,["removecomments FILE"]),
P("U19","The identifier tool camel-cases joined words and nothing else, and ends",
 "For every file content, the snake-to-camel tool ends, and its output is the content in which, on each line, from right to left and until none is left, every underscore that comes right after a lower-case letter and optional digits and right before an alphanumeric is removed and that alphanumeric is put in upper case. No other byte changes, so line structure, other underscores and non-ASCII text are kept, running it again changes nothing, the file keeps its permissions, and on failure the tool exits non-zero and reports on standard error.",
 ["inputs","fault_sequences"],"every file content","Three texts are tested.",["tools/snake2camel/snake2camel.go"],[("snake2camel, replaceAllStringSubmatchFunc","tools/snake2camel/snake2camel.go")],None,["snake2camel FILE"]),
P("U20","Parsing work and memory grow at most linearly with the input",
 "The number of steps executed and of bytes allocated by parsing, normalizing, comparing, stringifying and marshaling a URN is at most proportional to the input length, for accepted and rejected inputs of every shape, so no input makes the library super-linearly slow.",
 ["inputs"],"every family of inputs obtained by repeating any part or cycle of the grammar","Benchmarks time 20 short inputs; none grows.",[M,"urn.go"],[("single pass over the input","machine.go: (*machine).Parse")],None,["Parse","URN.Normalize","URN.Equal","URN.String","URN.MarshalJSON"]),
P("U21","The three modes agree where their grammars overlap",
 "Every input accepted in RFC 7643 mode is accepted in the RFC 2141 and RFC 8141 modes too, and every input accepted in RFC 2141 mode is accepted in RFC 8141 mode unless its identifier is a single character, ends with a dash or is 'urn-' followed by a letter or 0. RFC 2141 and RFC 8141 modes give the same identifier, specific string, string form and normal form to every input both accept, with no r-, q- or f-component, and RFC 7643 mode gives the same string form and normal form as they do.",
 ["inputs","configurations"],"every byte string x every pair of modes","No test parses the same input in two modes.",[M,"machine.go.rl"],[("shared sub-grammars","machine.go.rl: pre, nid, nss, sss, hex, pchar")],None,["Parse","Machine.Parse"]),
P("U22","The committed parser behaves as the one its grammar generates",
 "The parser that the documented build rule generates from the grammar file (state machine generator, comment tool, identifier tool, formatter) gives, for every input, in every mode, on a fresh or reused parser, the same verdict, parts, string and normal forms, error and message as the committed parser. So regenerating the parser never changes what the library does, and the tools corrupt nothing in it.",
 ["inputs","configurations"],"every byte string x mode, on the committed and on the regenerated parser","No test regenerates the parser; the suite only ever sees the committed file.",["machine.go.rl",M,"makefile","tools/removecomments/removecomments.go","tools/snake2camel/snake2camel.go"],[("grammar and actions","machine.go.rl"),("build rule","makefile: machine.go")],None,["Parse","Machine.Parse","make machine.go"]),
P("U23","Values built by hand behave as parsed ones",
 "A URN built from an identifier and a specific string has the string form 'urn:' identifier ':' specific string (empty if either is), whatever the two contain, and a SCIM value built from a supported type, a name and an optional rest has 'urn:ietf:params:scim:' type ':' name [':' rest]. Whenever that string is accepted in the corresponding mode, the built URN and the parsed one have the same string, normal and JSON forms and are equal both ways, and the SCIM value comes back unchanged from the parse and from JSON. No contents of the exported fields make stringifying, normalizing, comparing or marshaling such a value panic, fail or change it.",
 ["inputs"],"every content of the exported fields of URN, URN8141 and SCIM","Tests stringify two hand-built URNs and compare none; the private fields a parse fills in (prefix, normal form, kind) are all zero in these values.",["urn.go","scim.go","urn8141.go","scim/schema/type.go"],[("String: default prefix, emptiness","urn.go: (*URN).String"),("Normalize, Equal without parse data","urn.go: (*URN).Normalize, (*URN).Equal"),("SCIM.String","scim.go: (*SCIM).String")],None,["URN.String","URN.Normalize","URN.Equal","SCIM.String","json.Marshal"]),
]
import sys
for p in ps:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
    assert p["id"]
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(p) for p in ps)+'\n')
