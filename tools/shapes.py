#!/usr/bin/env python3
"""Generates mc/shapes.go: grammar structs of every combination of field kinds (for C26)."""
import itertools
# kind -> (field name pattern, type, tag, is collected, tag name)
K = {
 'tagged':   ('F%d', 'tok.Rule', '`name:"a%d"`', True,  'a%d'),
 'untagged': ('F%d', 'tok.Rule', '',             True,  ''),
 'emptytag': ('F%d', 'tok.Rule', '`name:""`',    True,  ''),
 'badtag':   ('F%d', 'tok.Rule', '`name:"%dx"`', True,  '%dx'),
 'spacetag': ('F%d', 'tok.Rule', '`name:"a%d "`', True,  'a%d '),
 'othertag': ('F%d', 'tok.Rule', '`json:"z%d"`', True,  ''),
 'twotags':  ('F%d', 'tok.Rule', '`json:"z" name:"B%d.c-d_e+f"`', True, 'B%d.c-d_e+f'),
 'private':  ('f%d', 'tok.Rule', '`name:"a%d"`', False, ''),
 'privatebad':('f%d','tok.Rule', '`name:"%dx"`', False, ''),
 'pointer':  ('F%d', '*tok.Rule','`name:"a%d"`', False, ''),
 'string':   ('F%d', 'string',   '`name:"a%d"`', False, ''),
 'slice':    ('F%d', '[]tok.Rule','`name:"1"`',  False, ''),
 'nested':   ('F%d', 'struct{ In tok.Rule `name:"in"` }', '', False, ''),
 'other':    ('F%d', 'otherRule','`name:"a%d"`', False, ''),
 'reader':   ('F%d', 'tok.Reader','`name:"a%d"`', False, ''),
 'map':      ('F%d', 'map[string]tok.Rule','`name:"1"`', False, ''),
}
main = ['tagged','untagged','badtag','private','pointer','reader','twotags']
shapes = [()] + [(k,) for k in K] + list(itertools.product(K, K)) + list(itertools.product(main, main, main))
# larger structs: one or two other fields among rules with names
odd = ['untagged','badtag','private','string','othertag']
for n in [4, 5, 6, 7, 8, 10, 12, 16, 20, 32]:
    shapes.append(('tagged',)*n)
    for k in odd:
        for i in range(n):
            if n > 8 and i not in (0, 1, n//2, n-2, n-1):
                continue
            shapes.append(tuple(k if j == i else 'tagged' for j in range(n)))
        shapes.append(tuple(k if j % 2 else 'tagged' for j in range(n)))
for a in odd:
    for b in odd:
        for i, j in itertools.combinations(range(6), 2):
            if (i + j) % 2:
                shapes.append(tuple(a if x == i else b if x == j else 'tagged' for x in range(6)))
# names in tags: every byte inside of a name, the printable ones also at the begin and at the end
def tagged(tag, name):
    k = 'tag:' + tag
    K[k] = ('F%d', 'tok.Rule', '`' + tag + '`', True, name)
    shapes.append((k,)); 
def esc(b): return '\\x%02x' % b
for b in range(256):
    tagged('name:"a' + esc(b) + 'b"', 'a' + esc(b) + 'b')
    if 0x20 <= b < 0x7f:
        tagged('name:"' + esc(b) + 'b"', esc(b) + 'b')
        tagged('name:"a' + esc(b) + '"', 'a' + esc(b))
for tag, name in [('name:"a" name:"b"', 'a'), ('json:"name:x" name:"q"', 'q'), ('  name:"a"', 'a'), ("name:'a'", ''), ('name:a', ''), ('Name:"a"', ''), ('"name:a"', ''), ('xname:"a"', ''), ('name :"a"', ''), ('a', ''), ('json:"x,omitempty" name:"a" xml:"-"', 'a'), ('name:"-"', '-'), ('name:"ä"', 'ä'), ('name:"aä"', 'aä'), ('name:"' + 'a' * 300 + '"', 'a' * 300), ('name:"a.b-c_d+e"', 'a.b-c_d+e'), ('name:"a.b,omitempty"', 'a.b,omitempty')]:
    tagged(tag, name)
K['embedded'] = ('', 'tok.Rule', '`name:"emb"`', True, 'emb')
K['embeddedplain'] = ('', 'tok.Rule', '', True, '')
for e in ['embedded', 'embeddedplain']:
    shapes += [(e,), (e, 'tagged'), ('tagged', e), ('tagged', e, 'badtag'), ('private', e, 'tagged')]
def sub(p, i): return p % i if '%d' in p else p
out = ['// Code generated by tools/shapes.py. DO NOT EDIT.','','package main','','import "github.com/aiq/tok"','',
'type otherRule tok.Rule','','type shapeField struct {','\tname      string','\tcollected bool','\ttag       string','}','','type shape struct {','\tnew    func() tok.Grammar','\tfields []shapeField','}','']
lst = []
for n, s in enumerate(shapes):
    out.append('type shape%d struct {' % n)
    fs = []
    for i, k in enumerate(s):
        f, t, tag, col, name = K[k]
        out.append('\t%s %s %s' % (sub(f, i), t, sub(tag, i)))
        fs.append('{"%s", %s, "%s"}' % (sub(f, i) or 'Rule', 'true' if col else 'false', sub(name, i)))
    out.append('}')
    out.append('')
    out.append('func (g *shape%d) Read(s *tok.Scanner) error { return nil }' % n)
    out.append('func (g *shape%d) What() string              { return "shape" }' % n)
    out.append('func (g *shape%d) Grammar() []*tok.Rule      { return tok.CollectRules(g) }' % n)
    out.append('')
    lst.append('\t{func() tok.Grammar { return &shape%d{} }, []shapeField{%s}},' % (n, ', '.join(fs)))
out += ['var shapes = []shape{'] + lst + ['}']
open(__file__.rsplit('/',2)[0]+'/mc/shapes.go','w').write('\n'.join(out)+'\n')
