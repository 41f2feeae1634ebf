"""Build and load the normalised IR of /repo's units (see tool/irdump.cpp)."""
import os, subprocess, json, hashlib, tempfile, re, sys
REPO = os.environ.get('SA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang-18'
IRDUMP = os.path.join(VERIF, 'build', 'irdump')
CFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-w',
          '-D_BSDCONV_INTERNAL', '-DPREFIX="/usr/local"', '-DBSDCONV_PATH="/usr/local"',
          '-emit-llvm', '-c']

# The public interface (and codec entry points): analysis boundaries, never inlined.
API = '''bsdconv_create bsdconv_init bsdconv_ctl bsdconv_destroy bsdconv bsdconv_error bsdconv_pack bsdconv_unpack
bsdconv_counter bsdconv_counter_reset bsdconv_hash_set bsdconv_hash_get bsdconv_hash_has bsdconv_hash_del
bsdconv_module_vital bsdconv_solve_alias bsdconv_module_check bsdconv_codec_check bsdconv_modules_list bsdconv_codecs_list
loadcodec unloadcodec load_filter unload_filter load_scorer unload_scorer
bsdconv_get_phase_index bsdconv_get_codec_index bsdconv_insert_phase bsdconv_insert_codec bsdconv_replace_phase
bsdconv_replace_codec bsdconv_malloc bsdconv_free bsdconv_mkstemp str2datum str2data getCodecDir'''.split()
CALLBACKS = 'cbconv cbflush cbcreate cbinit cbctl cbdestroy cbfilter cbscorer main'.split()

class Late(BaseException):
    """the time of an analysis is up"""
class AnalysisBroken(Exception):
    """an anchor vanished or the machinery cannot decide: error exit, never a verdict"""

class Unit:
    def __init__(self, d, src):
        self.src = src; self.d = d
        self.fns = d['fns']; self.structs = d['structs']; self.globals = d['globals']
        self.enums = d['enums']; self.sigs = d['sigs']; self.decls = d['decls']
    def off(self, st, field):
        s = self.structs.get(st)
        if not s: raise AnalysisBroken(f'{self.src}: struct {st} not found')
        for m in s['members']:
            if m['name'] == field: return m['off']
        raise AnalysisBroken(f'{self.src}: struct {st} has no field {field}')
    def size(self, st):
        if st not in self.structs: raise AnalysisBroken(f'{self.src}: struct {st} not found')
        return self.structs[st]['size']

_mem = {}
def load_unit(rel, extra=(), keep=None, workdir=None, typed=False):
    """compile REPO/rel with clang-18 and return its normalised IR"""
    keep = list(API if keep is None else keep) + CALLBACKS
    key = (rel, tuple(extra), tuple(keep), typed)
    if key in _mem: return _mem[key]
    if not os.path.exists(os.path.join(REPO, rel)): raise AnalysisBroken(f'{rel}: source file is gone')
    with tempfile.TemporaryDirectory(dir=workdir) as td:
        bc = os.path.join(td, 'u.bc')
        r = subprocess.run([CLANG] + CFLAGS + list(extra) + [rel, '-o', bc], cwd=REPO, capture_output=True, text=True)
        if r.returncode: raise AnalysisBroken(f'{rel}: does not compile: {r.stderr[-2000:]}')
        r = subprocess.run([IRDUMP, bc] + keep + (['--typed'] if typed else []), capture_output=True, text=True)
        if r.returncode: raise AnalysisBroken(f'{rel}: irdump failed: {r.stderr[-2000:]}')
    u = Unit(json.loads(r.stdout), rel)
    _mem[key] = u
    return u

_mk = None
def make_vars():
    """module lists as the real build expands them"""
    global _mk
    if _mk is None:
        r = subprocess.run(['make', '-pnq', '-f', 'Makefile'], cwd=REPO, capture_output=True, text=True)
        _mk = {}
        for line in r.stdout.splitlines():
            m = re.match(r'^(TODO_\w+) [:+]?= ?(.*)$', line)
            if m: _mk[m.group(1)] = m.group(2).split()
        if not _mk.get('TODO_CODECS_BASIC') or not _mk.get('TODO_FILTERS'):
            raise AnalysisBroken('module lists not found in the Makefile')
    return _mk
def codecs():
    v = make_vars()
    return [x for k in sorted(v) if k.startswith('TODO_CODECS') for x in v[k]]
def filters(): return make_vars()['TODO_FILTERS']
def scorers(): return make_vars()['TODO_SCORERS']
def codec_units():
    """codecs that ship native code"""
    return [c for c in codecs() if os.path.exists(os.path.join(REPO, 'modules', c + '.c'))]
