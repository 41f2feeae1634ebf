"""Independence of conversions: write-effect and call-effect analysis over the IR of the library, every codec, filter and
scorer. (1) No instruction anywhere stores through a pointer that may point at a global or static variable, hands such a
pointer to a callee that may write through it, or stores the address of a modifiable one; (2) nothing reachable at conversion
time (callbacks, bsdconv, bsdconv_init, bsdconv_ctl, maps and counters) calls a routine that keeps hidden process-wide state
or changes it (list below). Flow-insensitive, all instructions of all functions."""
import os
from .. import ir
CONV = ('cbconv', 'cbflush', 'cbinit', 'cbctl', 'cbfilter', 'cbscorer', 'bsdconv', 'bsdconv_init', 'bsdconv_ctl', 'bsdconv_counter', 'bsdconv_counter_reset',
        'bsdconv_hash_set', 'bsdconv_hash_get', 'bsdconv_hash_has', 'bsdconv_hash_del')
HIDDEN = set('''strtok wcstok localtime gmtime ctime asctime strerror strsignal setenv putenv unsetenv clearenv setlocale uselocale newlocale rand srand random srandom
initstate setstate drand48 lrand48 mrand48 srand48 umask chdir fchdir chroot signal sigaction sigprocmask sigaltstack setitimer alarm exit _exit _Exit abort quick_exit atexit on_exit
dup2 freopen setrlimit nice setpriority setuid setgid seteuid setegid setpgid setsid getpwnam getpwuid getgrnam getgrgid gethostbyname gethostbyaddr getopt getopt_long
tmpnam tempnam mktemp ttyname mblen mbtowc wctomb mbrlen ecvt fcvt hcreate hsearch hdestroy lgamma nl_langinfo readdir basename dirname inet_ntoa
daemon fork vfork execv execve execvp execl execlp system popen raise kill setbuf setvbuf fclose_all fcloseall tzset fesetround feenableexcept longjmp setjmp _setjmp
bsdconv_create bsdconv_destroy_all bsdconv_solve_alias bsdconv_module_check bsdconv_codec_check bsdconv_modules_list bsdconv_codecs_list loadcodec load_filter load_scorer'''.split())
# what these callees do to the argument: only read it
READS = set('''strcmp strcasecmp strncmp strncasecmp strlen strnlen strchr strrchr index rindex strstr strcasestr memchr memcmp bcmp strdup strndup strspn strcspn strpbrk atoi atol strtol strtoul
printf puts fputs fwrite write getenv chdir fopen fdopen open access stat lstat opendir dlopen dlsym realpath realpath_in perror strcoll strtoull strtoll strtod
bsdconv_create bsdconv_counter bsdconv_counter_reset bsdconv_hash_set bsdconv_hash_get bsdconv_hash_has bsdconv_hash_del bsdconv_module_check bsdconv_codec_check bsdconv_solve_alias
bsdconv_module_vital loadcodec load_filter load_scorer str2data str2datum bsdconv_mkstemp bsdconv_insert_phase bsdconv_insert_codec bsdconv_replace_phase bsdconv_replace_codec bsearch'''.split())
# callees that read every argument from the given one on
READS_FROM = dict(sprintf=1, snprintf=2, fprintf=1, vsnprintf=2, strcpy=1, strncpy=1, strcat=1, strncat=1, stpcpy=1, sscanf=0, __isoc99_sscanf=0, dprintf=1, strsep=1, fgets=9, qsort=3, __sprintf_chk=3, __snprintf_chk=4, __fprintf_chk=2, __printf_chk=1, strlcpy=1, strlcat=1)
def units():
    r = [('src/libbsdconv.c', ())] + [(f'modules/{c}.c', ()) for c in ir.codec_units()]
    return r + [(f'modules/filter/{f}.c', ()) for f in ir.filters()] + [(f'modules/scorer/{f}.c', ()) for f in ir.scorers()]
def roots(o, env):
    k = o.get('k')
    if k == 'i': return env.get(o['n'], frozenset())
    if k == 'glob': return frozenset({('g', o['n'])})
    if k == 'arg': return frozenset({('p', o['n'])})
    r = frozenset()
    for x in o.values():
        if isinstance(x, dict): r |= roots(x, env)
    return r
def ops(I):
    op = I['op']
    if op == 'getelementptr': return [I['base']]
    if op == 'phi': return [v for _, v in I['inc']]
    if op == 'select': return I['a'][1:]
    if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'freeze', 'add', 'sub'): return I.get('a', [])
    return []
def field(o, geps):
    """the record type and offset an address names (any record of that type)"""
    while o.get('k') == 'i' and o['n'] in geps and geps[o['n']]['op'] in ('bitcast',): o = geps[o['n']]['a'][0]
    I = geps.get(o.get('n')) if o.get('k') == 'i' else None
    return ('f', I['sty'], I['off']) if I and I['op'] == 'getelementptr' else ('f', '?', 0)
def values(f, heap):
    """value -> the globals, parameters and locals (and what locals and record fields hold) it may point at"""
    env = {}; held = {}; geps = {I['id']: I for b in f['bbs'] for I in b['ins'] if 'id' in I}
    ch = True
    while ch:
        ch = False
        for b in f['bbs']:
            for I in b['ins']:
                if I['op'] == 'alloca': n = frozenset({('a', I['id'])})
                elif I['op'] == 'load':
                    n = frozenset()
                    rs = roots(I['a'][0], env)
                    for r in rs:
                        if r[0] == 'a': n |= held.get(r, frozenset())
                    if not any(r[0] == 'a' for r in rs): n |= heap.get(field(I['a'][0], geps), frozenset())
                elif I['op'] == 'store':
                    v = roots(I['a'][0], env)
                    for r in roots(I['a'][1], env):
                        if r[0] == 'a' and not v <= held.get(r, frozenset()): held[r] = held.get(r, frozenset()) | v; ch = True
                    g = frozenset(r for r in v if r[0] == 'g')
                    if g and not all(r[0] == 'a' for r in roots(I['a'][1], env) or {('x',)}):
                        k = field(I['a'][1], geps)
                        if not g <= heap.get(k, frozenset()): heap[k] = heap.get(k, frozenset()) | g; ch = True
                    continue
                else:
                    n = frozenset()
                    for o in ops(I): n |= roots(o, env)
                    if I['op'] == 'call' and I.get('callee') in ('strchr', 'strrchr', 'index', 'strstr', 'memchr', 'strcpy', 'strcat', 'memcpy'): n |= roots(I['args'][0], env)
                if n and not n <= env.get(I['id'], frozenset()): env[I['id']] = env.get(I['id'], frozenset()) | n; ch = True
    return env
def run(rep):
    nf = ni = nst = ncall = ng = nh = 0; bad = []; conv = 0
    for rel, extra in units():
        try: u = ir.load_unit(rel, extra)
        except ir.AnalysisBroken as e: bad.append(f'{rel}: {e}'); continue
        mut = {n for n, g in u.globals.items() if not g.get('const')}; ng += len([n for n in mut if not u.globals[n].get('decl')])
        heap = {}; old = None
        while old != heap: old = dict(heap); envs = {n: values(f, heap) for n, f in u.fns.items()}
        nh += sum(len(v) for v in heap.values())
        writes = {n: set() for n in u.fns}     # parameters a function writes through
        def effects(fn, first):
            """yields (instruction, roots written, how)"""
            env = envs[fn]
            for b in u.fns[fn]['bbs']:
                for I in b['ins']:
                    if I['op'] == 'store':
                        yield I, roots(I['a'][1], env), 'stores to'
                    elif I['op'] in ('atomicrmw', 'cmpxchg'): yield I, roots(I['a'][0], env), 'stores to'
                    elif I['op'] == 'call':
                        c = I.get('callee') or ''; args = I.get('args') or I.get('a') or []
                        if c.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.stack', 'llvm.experimental')): continue
                        if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) or c in ('memcpy', 'memmove', 'memset'): yield I, roots(args[0], env), 'copies into'; continue
                        for i, a in enumerate(args):
                            r = roots(a, env)
                            if not r: continue
                            if c in u.fns:
                                if i in writes[c]: yield I, r, f'hands to {c}, which writes,'
                            elif c in READS or (c in READS_FROM and i >= READS_FROM[c]): pass
                            else: yield I, {x for x in r if x[0] == 'p' or (x[0] == 'g' and x[1] in mut)}, f'hands to {c or "a callback"}'
        ch = True
        while ch:
            ch = False
            for fn in u.fns:
                for I, rs, how in effects(fn, True):
                    for r in rs:
                        if r[0] == 'p' and r[1] not in writes[fn]: writes[fn].add(r[1]); ch = True
        for fn, f in u.fns.items():
            nf += 1
            for b in f['bbs']: ni += len(b['ins']); nst += sum(1 for I in b['ins'] if I['op'] == 'store')
            for I, rs, how in effects(fn, False):
                for r in sorted(rs):
                    if r[0] == 'g' and not r[1].startswith(('.str', 'llvm.', 'stdout', 'stderr', 'stdin', 'environ', 'optarg')):
                        rep.violation(f'{rel}:{fn}:global:{r[1]}', f'{I.get("file", rel)}:{I.get("line", "?")}: {fn} {how} {r[1]}, which every conversion in the process shares')
        # conversion time
        seen = set(); todo = [f for f in CONV if f in u.fns]
        while todo:
            fn = todo.pop()
            if fn in seen: continue
            seen.add(fn)
            for b in u.fns[fn]['bbs']:
                for I in b['ins']:
                    if I['op'] != 'call': continue
                    c = I.get('callee'); ncall += 1
                    if c in HIDDEN: rep.violation(f'{rel}:{fn}:call:{c}', f'{I.get("file", rel)}:{I.get("line", "?")}: {fn} calls {c} during a conversion, which uses or changes state of the whole process')
                    if c in u.fns and c not in ('bsdconv_create', 'bsdconv_destroy'): todo.append(c)
                    for a in I.get('args') or []:
                        if isinstance(a, dict) and a.get('k') == 'func' and a['n'] in u.fns: todo.append(a['n'])
        conv += len(seen)
    for x in bad: print('  not analysed:', x)
    rep.cov.update(units_not_analysed=bad, functions=nf, conversion_time_functions=conv, instructions=ni, stores=nst, calls_at_conversion_time=ncall, modifiable_globals=ng, addresses_kept_in_records=nh)
    rep.floor('units', len(units()) - len(bad), 100)
