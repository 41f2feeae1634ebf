#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has sa/checks/cNN.py; the rest under not_applicable."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 'C07': ('exhaustive closure over the alias data', 'Complete for the alias data in the tree: every alias, every component, transitively. Trusts that the resolver reads the ALIAS-* tables as compiled (C08, C23) and that natively computed aliases (LOCALE, UNICODE) are judged by other rules.'),
 'C08': ('table lint under the table compiler\'s grammar + IR export/signature query', 'Complete for every line of every table in the build and every native module\'s exported entry points. The grammar is a re-statement of src/bsdconv-mktable.c.'),

 'C09': ('exhaustive inverse check over decoder/encoder table pairs', 'Complete for every entry of the paired charset tables (native ranges of GB18030 are C11). One-way compatibility mappings confirmed by reading are recorded in data/oneway; any other is a violation.'),
 'C10': ('exhaustive comparison of tables with independent published definitions', 'Complete for every entry of the tables for which an independent definition exists offline (Python codecs, glibc iconv, unicodedata, html entities). Vendor differences of the current tree are recorded in data/published. Trusts those references.'),
}
LIFE = ' Sound path coverage up to the stated bounds: loops beyond the visit bound, private states beyond the per-configuration cap and steps beyond the budget are counted in the evidence, not judged. Trusts the engine calling contract (DESIGN.md) and the models of the C library and of the public API.'
AI = 'path-partitioned abstract interpretation of the LLVM IR of every native codec'
T.update({
 'C02': (AI + ' (ownership typestate)', 'Every acquire/release on every interpreted path of every codec callback.' + LIFE),
 'C03': (AI + ' (return-status typestate)', 'Status left by every interpreted path of cbconv.' + LIFE),
 'C04': (AI + ' (emitted-unit typestate)', 'Every unit appended on every interpreted path.' + LIFE),
 'C05': (AI + ' (comparison of reachable private states)', 'cbinit from every reachable private state against a fresh conversion.' + LIFE),
 'C14': (AI + ' (held-unit typestate)', 'What a codec keeps, against the status it answers and what its flush emits.' + LIFE),
 'C17': (AI + ' (null/initialisation typestate of creation)', 'Creation under 0, 1 and 2 arguments, present or missing values, failing library calls.' + LIFE),
 'C18': (AI + ' (write-effect analysis)', 'Every store of every interpreted path.' + LIFE),
 'C21': (AI + ' (interval bounds)', 'Every load, store, copy and formatted write of every interpreted path, for units of 0..6, 9 and 300 bytes with arbitrary content.' + LIFE),
 'C22': (AI + ' (dependence on later bytes and position)', 'Every decoder, chunks of one and two bytes from every reachable private state.' + LIFE),
 'C26': (AI + ' (comparison of reachable private states)', 'State after every rejection against the resting states.' + LIFE),
})
LIBN = ' The library calls are interpreted from the worlds described in DESIGN.md (every environment call failing or succeeding, names of symbolic letters, the listed shapes of strings and lists); other public calls stand for their contract. Trusts the models of the C library.'
T.update({
 'C01': ('path-partitioned abstract interpretation of the public calls (working-directory typestate)', 'Every path of module lookup and listing, codec, filter and scorer loading and creation.' + LIBN),
 'C15': ('path-partitioned abstract interpretation of the list operations (abstract list against abstract map)', 'Lists of 0..3 entries, all sequences of two key operations or three counter operations.' + LIBN),
 'C16': ('path-partitioned abstract interpretation of the output hand-over (list, tail and ownership)', 'Every output mode, pending lists of 0..3 units of 0..5 bytes with and without owned bytes, buffers of every size up to two more than needed. I/O errors of the output file are outside.' + LIBN),
 'C24': ('path-partitioned abstract interpretation over string shapes with symbolic letters', '36 shapes of conversion strings, 8 of them edited at every index from two below the first to one past the last.' + LIBN),
})
ENG = ' The engine is interpreted with tables and callbacks whose answers are chosen at the moment it asks (every table that matters on the given input), streams of up to three symbols (four in the thorough tier), one or two alternative codecs, every split into two calls, lists of units, and pipelines of up to four phases; longer streams and deeper fall-back chains are outside.'
T['C13'] = ('path-partitioned abstract interpretation of the engine against its specification; effect analysis of the codecs', 'Counters on every path of bsdconv() and every store of every codec.' + ENG + LIFE)
for k in ('C02', 'C04', 'C05', 'C17', 'C18', 'C21'): T[k] = (T[k][0] + ' and of the public calls of the library', T[k][1] + LIBN)
for k in ('C02', 'C03', 'C04', 'C14', 'C17', 'C18', 'C21', 'C22'): T[k] = (T[k][0], T[k][1] + ENG)
T['C06'] = ('flow-insensitive write-effect and call-effect analysis of the LLVM IR', 'Complete for every instruction of every function of the library, the codecs, the filters and the scorers; addresses of modifiable storage are followed through locals and record fields (per record type and offset). Does not judge races inside libc or dlopen, or two threads sharing one conversion (the interface excludes that).')
BL = " Exact: blocks of inputs are proved by comparing canonical forms, blocks that are not are halved down to single inputs; undecided blocks would be counted in the evidence (none on the unchanged tree)."
T['C11'] = ('table lint over the IR initialisers + abstract interpretation of every lookup, block by block', 'Complete: every entry of every range table; every range and every gap of 0..2^32-1 for every filter, scorer and table-searching codec, each from its initial state.' + BL)
T['C19'] = ('symbolic bit provenance: abstract interpretation with canonical forms, block by block', 'Complete for every character and every encoded sequence of UTF-8, UTF-16BE/LE, UTF-32BE/LE and UCS-2BE/LE, from the initial state, in one chunk (other chunkings are C22).' + BL)
T['C20'] = ('abstract interpretation over the classes of ill-formed and well-formed sequences', 'Complete for sequences of up to six bytes (the longest the decoder knows), in the default mode and under each option, and for what follows a rejected sequence.' + BL)
SEQ = ' Sequences of unit classes (each class a block of the input space) up to the stated length are interpreted with the engine\'s handling of refused and waiting units around the codec; the emitted units are compared as formulas in the input bytes. Exact on the sequences explored; longer ones are not judged.'
T['C25'] = ('comparison of the mapping data with an independent copy of the Unicode data; abstract interpretation of the ordering, composition and Hangul codecs over sequences of character classes', 'Data complete (differences between Unicode versions are recorded); Hangul complete; ordering and composition over every sequence of up to four or five classes, every interval of the class tables.' + SEQ)
T['C27'] = ('symbolic bit provenance: abstract interpretation with canonical forms, block by block', 'Every notation of every listed codec in every mode; numbers of up to ten decimal or six hexadecimal digits; units of up to four bytes.' + BL)
T['C28'] = ('abstract interpretation over sequences of unit classes (relational: emitted units against entered units, counters against classes)', 'Sequences of two to six units over up to nine classes per codec, every combination of options, every answer of the filter or scorer.' + SEQ)
TOOL = ' Argument lists without, with one and with two files, each mode; every call that can fail split into success and failure; inputs of up to two chunks (with two files one each in the quick tier) ending in an end or an error. Trusts the models of stdio and of the file-system calls; that rename() is atomic and that data handed to a closed stream survive are assumptions about the system, so durability against power loss is not judged.'
T['C12'] = ('path-partitioned abstract interpretation of the command-line tool (file-system typestate)', 'Which file every name refers to, before and after every call of every path.' + TOOL)
T['C30'] = ('abstract interpretation of mode switching (per mode, prefix and byte class: next mode, table consulted, output)', 'Every escape sequence from every set, every prefix followed by every byte, every byte in every set, with the table and the place in it that is read; the shift machines of the EBCDIC codecs over every history of up to four code widths.' + SEQ)
T['C31'] = ('abstract interpretation over sequences of unit classes and over queue shapes (relational)', 'What DERAIL records over sequences of up to four units; what RERAIL emits and keeps for every queue of up to three entries at every relation of their places to the units passed.' + SEQ)
T['C29'] = ('path-partitioned abstract interpretation of the command-line tool (protocol typestate)', 'Which bytes each conversion is given and where its text goes, on every path.' + TOOL)
T['C23'] = ('byte-order value flow over the typed IR of all units; abstract interpretation of the table compiler over shapes of table sources', 'Byte order: complete for every field access of the compiler, the library, the debugger and every codec that the value flow reaches. Table content: 39 shapes of sources (prefixes, any byte, units, callbacks, case, sharing of data, order of lines) with symbolic data digits; larger tables are combinations of these and not judged as such.')
NA = {}
def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = []; na = []
    for i in ids:
        if i in T and os.path.exists(os.path.join(HERE, 'sa', 'checks', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
                               technique='static analysis: ' + T[i][0], level='other', level_note=T[i][1]))
        else: na.append(dict(property=i, reason=NA.get(i, 'No check is claimed yet: the analysis for this property is still being built.')))
    json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
                   notes='python3 check.py ID runs one property; sa/ holds the analyses, tool/irdump.cpp the IR normaliser.'),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__': main()
