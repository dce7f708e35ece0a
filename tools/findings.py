# writes KNOWN_FINDINGS.txt: the known findings and the fix commits of /repo
import subprocess
known=[l for l in open('/verif/KNOWN_FINDINGS.txt').read().split('\n') if l.startswith('known:')]
P={ # subject prefix -> properties, what failed
"RevTo and RevToFold":("C05","RevTo and RevToFold did not find the empty string at the start of the text (To and ToFold found it at the end)"),
"the JSON rule digits":("C22","picking the rule digit of JSON gave nothing, the digits were read without the rule"),
"a quote in a range":("C31","a single quote as bound of a range was described by a backslash only"),
"a Reset during a read":("C15","after a Reset during a monitored read later entries had wrong exits and wrong or negative levels, printing them panicked"),
"later reads do not":("C14","a list that Picked returned was overwritten by reads after the scanner was moved back"),
"ToMarker rejects":("C01","ToMarker accepted markers behind the end or before the start of the text, the next call panicked"),
"step over U+FFFD":("C01 C05","MoveRunes and the reverse functions stopped at an encoded U+FFFD and at invalid bytes"),
"ScanString reads":("C07","ScanString failed for a read that ends with the text"),
"fold functions":("C02 C03 C05","IfFold, ToFold and RevIfFold sliced outside of the text or compared different lengths, e.g. 'k' with the Kelvin sign"),
"While functions return":("C04 C05","While functions returned true without moving or false after moving"),
"RevIfBetween and":("C05","RevIfBetween and RevIfMatch never moved"),
"no rune matches at":("C02 C05","IfBetween, IfMatch and the reverse functions matched U+FFFD at the end or start of the text"),
"ReadRune and Rev":("C07 C05","ReadRune and RevReadRune failed for an encoded U+FFFD"),
"ReadInt and ReadUint":("C06","64 bit overflow that wraps to a larger value was not detected, e.g. ReadUint(16, 64)"),
"Times moves":("C10","Times stayed behind the repetitions that it had read when a later one failed"),
"Not fails":("C09 C11","Not at the end of the text succeeded or did not end inside a repetition"),
"Zom and Many":("C11","Zom and Many of a reader that matches the empty string did not end"),
"Past, Body and":("C09","Past, Body and BodyTail did not find a tail that matches at the end of the text"),
"Body and BodyTail read":("C14 C09","Body read on a sub scanner: no tracker, wrong positions"),
"Any reports its own":("C12","Any returned an error without position if no alternative gave a ReadError"),
"Monitor completes":("C15","the exit of a monitored reader was written into a stale copy of the log entry"),
"PrintWithPreview":("C15","PrintWithPreview sliced outside of the text"),
"sort Segments":("C17","the comparison was no strict order, covering segments came behind covered ones"),
"a MXT header":("C23 C28","a chunk without salt ended at the salt of a previous chunk"),
"the second Janus":("C13 C28","the second reader of a Janus pair forgot what it expects after the first attempt"),
"CheckRuleName":("C26","names with a valid prefix were accepted"),
"CollectRules skips":("C26","CollectRules panicked for structs with unexported fields"),
"SetRuleNames skips":("C26","SetRuleNames panicked for structs with unexported fields"),
"Lua operators that":("C25","'<' hid '<=' and '<<' (also '>', '/', '~'), 'a<=b' was not read"),
"a Lua line comment can":("C24 C25","a comment at the end of the text was not read"),
"a Lua keyword is not":("C24 C25","keywords were read as names, 'if x then end' as call"),
"a Lua keyword ends":("C25","'ork' was read as 'or k'"),
"whitespace and comments":("C25","between several tokens no whitespace was allowed"),
"Lua numerals can":("C24","'.5' and '5.' were not read"),
"Lua strings can":("C24","tabs and escaped line breaks in strings were not read"),
"BodyTail moves back":("C10","BodyTail stayed behind the body if its tail did not match a second time"),
"vertical tab":("C24 C25","\\v and \\f were not read as spaces"),
"a Lua line comment ends":("C24 C25","'--' with '\\r' and '--[=' at the begin of a comment"),
"Lua escape":("C24","\\999 and \\u{FFFFFFFFF} were accepted"),
"a Lua numeral is":("C25","'3x' was read as two tokens"),
"spaces are skipped behind":("C25","'; ;' and 'break ;' were not read"),
"the Lua rule Numeral":("C33","picking Numeral gave nothing, numerals of expressions were read without the rule"),
"order segments by":("C17","an info that is mentioned more than once in the order list was ordered by different mentions, which is no order"),
"a Lua shebang line":("C25","a shebang line without line break was not read by the Script rule"),
"reading a Lua":("C25 C11","chains of operators needed exponential time"),
}
out=["# known: defects that are recorded, fixed: defects that were repaired in /repo (they suppress nothing)"]+known
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).strip().split('\n')
n=0
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    hit=[k for k in P if s[5:].startswith(k)]
    assert len(hit)==1,(s,hit)
    ids,what=P[hit[0]]
    for i in ids.split(): out.append(f"fixed: property={i} {h} {what}")
    n+=1
print(n)
open('/verif/KNOWN_FINDINGS.txt','w').write('\n'.join(out)+'\n')
