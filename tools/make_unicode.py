"""Writes mc/src/nfkc.txt (Unicode compatibility counterparts) and mc/src/named.rs (the public names of the
predefined entries with the Unicode name each stands for). Run once; the outputs are committed and no check
reads the repository's sources through this."""
import os, re, sys, unicodedata
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for c in range(0x110000):
    if 0xd800 <= c < 0xe000: continue
    n = unicodedata.normalize('NFKC', chr(c))
    if n != chr(c) and not 0xf900 <= c < 0xfb00 and not 0x2f800 <= c < 0x2fa20:
        out.append(f"{c:x}\t{' '.join(f'{ord(x):x}' for x in n)}")
open(f'{V}/mc/src/nfkc.txt', 'w').write(f'# NFKC, Unicode {unicodedata.unidata_version}\n' + '\n'.join(out) + '\n')
OTHER = {'SHARP': 'NUMBER SIGN', 'DOLLER_SIGN': 'DOLLAR SIGN', 'SLASH': 'SOLIDUS', 'SEMI_COLON': 'SEMICOLON', 'EQUAL_SIGN': 'EQUALS SIGN',
         'AT_SIGN': 'COMMERCIAL AT', 'BACKSLASH': 'REVERSE SOLIDUS', 'VERTICAL_BAR': 'VERTICAL LINE'}
WHOLE = {'QUOTATION_MARK': 'RIGHT DOUBLE QUOTATION MARK', 'APOSTROPHE': 'RIGHT SINGLE QUOTATION MARK', 'TILDE': 'WAVE DASH', 'IDEOGRAPHIC_SPACE': 'IDEOGRAPHIC SPACE'}
byname = {}
for c in range(0x3000, 0x10000):
    if 0xd800 <= c < 0xe000: continue
    n = unicodedata.name(chr(c), None)
    if n: byname[n.replace('-', '_').replace(' ', '_')] = c
for n in WHOLE.values():
    byname[n.replace(' ', '_')] = ord(unicodedata.lookup(n))
r = ['//! Generated by tools/make_unicode.py: every public named entry and the character its name stands for.',
     'use chanoma::characters_set::prelude::*;', 'use chanoma::{Corr, Item};', '', 'pub struct Named {', '    pub table: &\'static str,', '    pub name: &\'static str,',
     '    pub from: char,', '    pub items: fn() -> Vec<Item>,', '}', '', 'pub fn named() -> Vec<Named> {', '    let mut v = Vec::new();',
     '    macro_rules! n { ($t:literal, $e:expr, $c:literal) => { v.push(Named { table: $t, name: stringify!($e), from: $c, items: || $e.items() }) } }']
for f, t, pre in (('alphabets', 'Alphabets', 'FULLWIDTH_LATIN_'), ('digits', 'Digits', 'FULLWIDTH_'), ('punctuations', 'Punctuations', 'FULLWIDTH_'), ('kanas', 'Kanas', 'HALFWIDTH_'), ('cjk_compatibilities', 'CjkCompatibilities', '')):
    for n in re.findall(r'pub const (\w+): Correspondence<Linear>', open(f'/repo/src/characters_set/{f}.rs').read()):
        u = WHOLE[n].replace(' ', '_') if n in WHOLE else pre + OTHER.get(n, n).replace(' ', '_')
        e = n if t == 'CjkCompatibilities' else f'{t}::{n}'
        r.append(f"    n!(\"{t}\", {e}, '\\u{{{byname[u]:x}}}');")
r += ['    v', '}', '']
open(f'{V}/mc/src/named.rs', 'w').write('\n'.join(r))
