"""assembles DESIGN.md: tools/design_head.md, a section per property with the bounds of the last
quick run (evidence/*.json), tools/design_tail.md"""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
O={
"C01":"Oracle: a model with a byte offset; rune boundaries are computed by decoding from the position. A recording tracker is coupled; the model predicts its calls. State = (text, position); since the scanner has no other state, all sequences up to the bound reach every reachable state many times over, and the offsets contain every position, -1, len+1, and the int extremes.",
"C02":"Oracle: prefix comparison rune by rune written directly on decoded runes (for fold: orbit of unicode.SimpleFold).",
"C03":"Oracle: first index by brute force over all rune boundaries.",
"C04":"Oracle: longest run by brute force. Known finding whileanyrune-end is keyed by exactly its situation (all runes up to the end in the set, result true, not moved).",
"C05":"Oracles: brute force on the head, and the mirror law: the forward function on the reversed text (for texts of valid runes).",
"C06":"Oracle: math/big on the longest digit prefix that fits; all values around each boundary of each base and size, each followed by more digits, with and without sign, all prefixes with leading zeros.",
"C07":"Oracle: lists of spellings; utf8 decoding of the first rune; rune slices for ScanString. All 1 112 064 code points and all one to three byte sequences (thorough: four) for ReadRune/RevReadRune.",
"C08":"Oracle: interpreter of the scoped programs. A program is a tree of scoped calls whose bodies are sequences of moves (forward, backward, to the ends) and end with success or failure.",
"C09":"Oracle: the reference interpreter of expr.go (PEG semantics on positions). All expressions of bounded depth over all combinators; leaves of every sort with every sort of parameter.",
"C10":"Monitor: a probe around every node records the position before and after each Read; a failed one must end where it began, at every level. Wrapped by transparent readers of the harness, so failing parts inside of the real combinators are observed too. For grammars all rules are probed.",
"C11":"Monitor: step limit by a counting tracker (a multiple of what the reference interpreter needs), recover, position inside of the text. Texts contain invalid bytes, truncated runes and U+FFFD; documents are truncated everywhere and changed at every byte.",
"C12":"Oracle: the reference interpreter returns kind, position and What of the error; admissible alternatives are in a set where the documentation leaves room.",
"C13":"Oracle: one variable per pair (the last match). Histories of attempts: begin/end of one or two pairs at every position, then all expressions with begin and end below every combinator, on sequences of texts (state survives between reads).",
"C14":"Oracle: the reference interpreter returns the list of picks of the successful path. Known finding empty-pick-backtrack: an empty pick at exactly the position to which an abandoned path goes back; the check computes the set of such picks and accepts only their presence.",
"C15":"Comparison with the unwrapped expression (same result, position, error position) plus probes inside of the wrappers that predict the map calls and the log entries; printing is captured and compared by line.",
"C16":"Oracle: intervals of integers.",
"C17":"Oracle: stable insertion sort by (from, -to, index of info).",
"C18":"Oracle: direct construction of the partition.",
"C19":"Oracle: nesting is computed from the set of accepted segments (parent = smallest covering one, later ones with equal range outside); the whole tree is compared after every Append.",
"C20":"Oracle: direct traversal of hand-built trees; Equal for all pairs.",
"C21":"Two oracles that are compared with each other on every text: encoding/json on every prefix and a handwritten recogniser that gives the longest prefix. Each rule alone: the McKeeman grammar interpreted by the reference interpreter.",
"C22":"Oracle: the grammar of crockford.com/mckeeman.html interpreted by the reference interpreter with picks; graph compared with the nesting model of C19.",
"C23":"Oracle: a line oriented reference parser written after the description of MXT (not with combinators).",
"C24":"Oracle: handwritten scanners after section 3.1 of the Lua manual.",
"C25":"Oracle: a lexer (longest match) and a recursive-descent recogniser after section 9 of the manual. Token sequences: all up to a length over small token sets per construct, all viable prefixes (DFS over the recogniser) with every next token, all one-token changes of valid chunks, all spacings and comments between tokens, all words that begin with keywords.",
"C26":"Oracle: byte-wise check of names; expected rules from the description of the generated struct.",
"C27":"Monitor: the reader fails, does not move, its What contains the marker; and the complement for valid expressions.",
"C28":"Comparison of one long-lived instance with fresh instances over sequences that contain every pair/triple of texts (de Bruijn-like walks), with failing and succeeding reads.",
"C29":"Stateless exploration: jobs are parses whose trackers, callbacks and probe readers hand over control; a schedule is a list of preemptions (point, target). All schedules up to the preemption bound are generated from the plan model (numbers of interruption points) and executed; the executed order is compared with the plan. Outcomes must be those of the job alone. In addition all ordered pairs of operations run unsynchronised under the Go race detector: a conflicting access to shared memory is reported whatever the actual timing, since the two goroutines have no happens-before edge.",
"C30":"Oracle: direct byte count.",
"C31":"Oracle: renderer of the notation over the expression AST; What is asked before and after reads and with wrappers at every node.",
"C32":"Oracle: for JSON the reference parse of C22 restricted to the seven rules, nested by the model of C19 and rendered by the model of C20; for Lua the model rendering of the graph of the picks (judged by C33). The commands are built from the tree and executed as processes on files in a scratch directory.",
"C33":"Oracle: the recursive-descent parser of C25 records each occurrence of a rule as a range of tokens; the picks are mapped to ranges of tokens and compared as multisets (exp, finalexp, prefixexp, var: inclusion), comments by bytes; order of completion and nesting are checked pairwise, the number of nodes of the graph too.",
}
out=open('/verif/tools/design_head.md').read()
tot=0
for p in props:
    i=p['id']; e=json.load(open(f'/verif/evidence/{i}.json'))
    out+=f"\n### {i} {p['title']}\n\n{O[i]}\n\nReaches what the tests cannot: {p['why_tests_cant']}.\n\n"
    tot+=e['coverage']['states']
    for ph in e['coverage']['phases']:
        out+=f"* `{ph['name']}`: {ph['bound']}\n"
    c=e['coverage']
    out+=f"\nQuick tier: {c['states']:,} states, {c['transitions']:,} transitions, {e['wall_s']:.0f} s on 8 cores.\n"
import os
res={}
for l in open('/verif/tools/seed_results.txt'):
    w=l.split()
    if len(w)>2: res[w[0]]=w[2]
rows='| id | property | needs | breaks | its check |\n|---|---|---|---|---|\n'
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows+='| %s | %s | %s | %s | %s |\n'%(d,m['property'],m['needs'].replace('|','\\|'),m['what_it_breaks'].replace('|','\\|'),res.get(d,'?').lower())
out+=open('/verif/tools/design_tail.md').read().replace('@SEEDS@',rows)
open('/verif/DESIGN.md','w').write(out)
