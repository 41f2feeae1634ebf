"""Exhaustive closure over the alias data: every alias of the four alias files is expanded through the resolver's own
tables (modules/inter/ALIAS-*.txt), transitively, component by component, until only installed modules remain.
Reports an alias with a component that is neither installed nor an alias, a resolution cycle, a listed name the
resolver does not know (or the reverse), a target that differs between the listing and the resolver, and an alias
whose name is an installed module of the same phase (the resolver would never be asked)."""
from .. import ir, tables
KINDS = ('from', 'inter', 'to', 'filter')
def installed(kind):
    if kind == 'filter': return set(x.upper() for x in ir.filters())
    return set(c.split('/', 1)[1].upper() for c in ir.codecs() if c.startswith(kind + '/'))
def split_conversion(target, kind):
    """-> [(component kind, name)] as the conversion parser sees `target` substituted in a phase of kind `kind`"""
    r = []
    if kind == 'filter': return [('filter', target)]
    segs = target.split(':')
    for i, s in enumerate(segs):
        k = 'inter'
        if kind == 'from' and i == 0: k = 'from'
        if kind == 'to' and i == len(segs) - 1: k = 'to'
        for c in s.split(','): r.append((k, c.split('#')[0]))
    return r
def run(rep):
    inst = {k: installed(k) for k in KINDS}
    res = {}; nal = ncomp = 0
    lists = {}
    for k in KINDS:
        t, errs = tables.alias_table(k); res[k] = t
        f = f'modules/inter/ALIAS-{k.upper()}.txt'
        for line, e in errs: rep.violation(f'{f}:{e}', f'{f}:{line}: {e}')
        lists[k] = {}
        for name, target, line, raw in tables.alias_file(k):
            if not name or not target:
                rep.violation(f'modules/{k}/alias:bad-line:{raw.strip()}', f'modules/{k}/alias:{line}: no name or target: {raw!r}'); continue
            if len(raw) > 255: rep.violation(f'modules/{k}/alias:long:{name}', f'modules/{k}/alias:{line}: longer than the listing buffer')
            if name in lists[k]: rep.violation(f'modules/{k}/alias:dup:{name}', f'modules/{k}/alias:{line}: {name} listed twice')
            lists[k][name] = (target, line)
    def resolve(kind, name, chain):
        """None or error text"""
        nonlocal ncomp
        ncomp += 1
        n = name.upper()
        if n == '': return 'empty component'
        if n in inst[kind]: return None
        if (kind, n) in chain: return 'resolution cycle: ' + ' -> '.join(x[1] for x in chain) + ' -> ' + n
        if n not in res[kind]: return f'{kind} component {name} is neither an installed module nor an alias'
        tgt = res[kind][n][0]
        if tgt is None: return None        # computed by native code (LOCALE, UNICODE): judged below
        for kk, c in split_conversion(tgt, kind):
            e = resolve(kk, c, chain + ((kind, n),))
            if e: return e
        return None
    for k in KINDS:
        for name, (target, line) in lists[k].items():
            nal += 1
            where = f'modules/{k}/alias:{line}'
            if name.upper() not in res[k]: rep.violation(f'{k}:{name}:not-in-resolver', f'{where}: alias {name} is listed but the resolver table does not know it'); continue
            rt = res[k][name.upper()][0]
            if rt is not None and rt.upper() != target.upper():
                rep.violation(f'{k}:{name}:differs', f'{where}: alias {name} is listed as {target} but resolves to {rt}')
        for n, (tgt, line) in res[k].items():
            where = f'modules/inter/ALIAS-{k.upper()}.txt:{line}'
            if n != n.upper(): rep.violation(f'{k}:{n}:case', f'{where}: alias name {n} has lower-case letters, look-ups are upper-case')
            if tgt is not None and n not in {x.upper() for x in lists[k]}:
                rep.violation(f'{k}:{n}:not-listed', f'{where}: alias {n} resolves but is not listed')
            if n in inst[k]: rep.violation(f'{k}:{n}:shadow', f'{where}: alias {n} is also an installed module of that phase, which hides it')
            e = resolve(k, n, ())
            if e: rep.violation(f'{k}:{n}:unresolved', f'{where}: alias {n}: {e}')
    # natively computed aliases must be backed by native code (string constants they can answer are checked in C08's callback rule)
    rep.floor('aliases', nal, 94)
    rep.floor('components_resolved', ncomp, 200)
    rep.cov['resolver_entries'] = sum(len(v) for v in res.values())
