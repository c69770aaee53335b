#!/usr/bin/env python3
"""Lists small changes of the program's source, as JSON [{file, line, n, new, op}], for run/mutate.js (a development aid)."""
import json, os, re, sys, random
root = sys.argv[1]
seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
out = []
swaps = [(r' <= ', ' < '), (r' >= ', ' > '), (r' < ', ' <= '), (r' > ', ' >= '), (r' == ', ' != '), (r' != ', ' == '),
         (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '),
         (r'safe_add', 'safe_sub'), (r'safe_sub', 'safe_add'), (r'safe_mul', 'safe_div'), (r'safe_div', 'safe_mul'),
         (r'Rounding::Up', 'Rounding::Down'), (r'Rounding::Down', 'Rounding::Up'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('),
         (r'\bpartner', 'creator'), (r'\bcreator', 'partner'), (r'base', 'quote'), (r'quote', 'base'),
         (r'partner', 'protocol'), (r'protocol', 'partner'), (r'cliff_duration_from_migration_time', 'frequency'),
         (r'permanent_locked', 'liquidity'), (r'BaseToQuote', 'QuoteToBase'), (r'QuoteToBase', 'BaseToQuote'),
         (r'div_ceil', 'saturating_div'), (r'\?;', '.unwrap_or_default();'), (r'lower', 'upper'), (r'upper', 'lower'),
         (r'included', 'excluded'), (r'excluded', 'included'), (r'_in\b', '_out'), (r'_out\b', '_in'),
         (r'seconds', 'slots'), (r'\bstart', 'end'), (r'pre_', 'post_'), (r'post_', 'pre_'), (r'saturating_sub', 'saturating_add'), (r'filter_period', 'decay_period'), (r'decay_period', 'filter_period')]
skip = re.compile(r'^\s*(//|use |pub use |#\[msg|#\[derive|msg!|mod |pub mod |pub fn|fn |impl|\}|pub struct|pub enum|#\[event|#\[error)')
for base in ['programs/dynamic-bonding-curve/src', 'dynamic-bonding-curve-sdk/src', 'libs']:
    for d, _, fs in os.walk(os.path.join(root, base)):
        if '/tests' in d: continue
        for f in sorted(fs):
            if not f.endswith('.rs') or f in ('error.rs', 'event.rs', 'const_pda.rs') : continue
            p = os.path.join(d, f)
            if '/libs/' in p and 'damm-v2/src/utils' not in p and 'locker' not in p: continue
            L = open(p).read().split('\n')
            for i, l in enumerate(L):
                if skip.match(l) or not l.strip(): continue
                if re.match(r'\s*(mod tests|#\[cfg\(test)', l): break
                add = lambda new, op, n=1: out.append({'file': os.path.relpath(p, root), 'line': i, 'n': n, 'new': new, 'op': op})
                for a, b in swaps:
                    ms = list(re.finditer(a, l))
                    for m in ms[:3]:
                        add(l[:m.start()] + re.sub(a, b, m.group(0)) + l[m.end():], a.strip() + '->' + b.strip())
                for m in list(re.finditer(r'(?<![\w.#])(\d[\d_]*)(?![\w.])', l))[:2]:
                    if l.strip().startswith('const') or 'pub const' in l: pass
                    v = int(m.group(1).replace('_', ''))
                    add(l[:m.start()] + str(v + 1) + l[m.end():], 'const+1')
                    if v: add(l[:m.start()] + str(v - 1) + l[m.end():], 'const-1')
                # statements of one line, conditions of accounts
                if re.match(r'\s*[\w.\[\]*]+( [-+*/]?= |\()[^{]*;$', l) and not l.strip().startswith(('let', 'return', 'const', 'pub', 'type')): add('', 'delete statement')
                if re.match(r'\s*(has_one|constraint|address|token::\w+|associated_token::\w+|close|seeds|signer)\b.*,$', l): add('', 'delete condition')
                if re.match(r'\s*#\[account\((address|has_one|constraint|signer)[^)]*\)\]$', l): add('', 'delete condition')
                if 'Signer<' in l: add(re.sub(r"Signer<('\w+)>", r"UncheckedAccount<\1>", l), 'no signer')
                # macros over several lines
                m = re.match(r'\s*(require\w*!|emit_cpi!|validate\w*)\(', l)
                if m:
                    k = 0; depth = 0
                    while i + k < len(L):
                        depth += L[i + k].count('(') - L[i + k].count(')')
                        k += 1
                        if depth <= 0: break
                    if L[i + k - 1].rstrip().endswith(';'): add('', 'delete ' + m.group(1), k)
                m = re.match(r'\s*if .*\{$', l)
                if m and ' let ' not in l:
                    add(re.sub(r'if (.*) \{$', r'if !(\1) {', l), 'negate if')
                    add(re.sub(r'if (.*) \{$', r'if true || \1 {', l), 'always')
                    add(re.sub(r'if (.*) \{$', r'if false && (\1) {', l), 'never')
random.Random(seed).shuffle(out)
json.dump(out, sys.stdout)
