"""Fills the tables of DESIGN.md (between <!-- name --> and <!-- end -->) from the plan, the evidence of the last runs and seeded/."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/driver')
import plan
WHAT = {
    'C01': 'a panic, abort, timeout (20 s) or memory over 4 GiB of any call, in every mode and with and without serde; random bytes, mutations of every kind, hostile counts and lengths, nesting up to the known depth of K5; further 300 000 messages, all the corpora of C02 to C21 and two mutations of each, are run, and TLC is asked only about those that do not return',
    'C02': 'every prefix of a message is rejected, every extension of it by a byte or a tail, bytes and records behind MessageEnd, missing header or end; the families with all their prefixes',
    'C03': 'all bytes of each header field, every major/minor of small and border values, headers twice and late',
    'C04': 'every primitive type in all places where one may be (member, element, boxed, untyped, argument, return value); all bytes, in thorough all values of the 2-byte types and all characters, borders and random values of the others, decimals as text',
    'C05': 'length prefixes of 1 to 5 bytes, also overlong and unaligned, lengths around powers of two up to 2^28, all UTF-8 border sequences, valid and not, in every place of a string',
    'C06': 'objects with typed and untyped members, nested, in any order, repeated names, many members',
    'C07': 'classes and ClassWithIds that name each other forward, backward, themselves, arrays, strings; enclosing; several candidates',
    'C08': 'libraries before and in a record, IDs repeated, negative, zero, unknown; names near each other',
    'C09': 'each record kind in the place of each declared type; class and library names near the declared one',
    'C10': 'references to any object, forward, backward, nested, dangling, to themselves, one string many times; with references resolved at the end (`ideal`) or as nrbf does (`asis`)',
    'C11': 'declared lengths against runs of nulls of every split, single and multiple (1 and 4 byte counts), too long by one, across members; arrays of each kind',
    'C12': 'shapes by rank, kind, lengths, zero dimensions and products up to 2^64 and more; lower bounds',
    'C13': 'IDs repeated between every two kinds of records, zero, negative, of each magnitude',
    'C14': 'method calls with all argument and context flags, call arrays of every length and order of what is in them, wrong ones',
    'C15': 'the same for method returns with values, contexts, exceptions, arguments',
    'C16': 'all combinations of the 13 flags that say where values are or that exclude each other, for calls and returns, and those of the others with valid ones',
    'C17': 'root IDs that name each object, none, nested or referenced ones, method records, zero and negative; objects in front of and behind method records',
    'C18': 'each primitive and box with edge values to each scalar target; boxes with wrong members, names near right',
    'C19': 'arrays of each kind and Lists with all sizes around the number of items, for sequences, tuples, arrays; names near right; counts of what the access reports (`seqhead`, `seqpast`)',
    'C20': 'objects to structs and maps of all kinds (defaults, flatten, deny_unknown, borrowed, untagged), names near right',
    'C21': 'from_slice and the Deserializer of a parsed message against parse, for every target: same acceptance, same value, as NrbfSerde says; cut short at every place, and with bytes in front and behind',
    'C22': 'sessions of 4 threads (thorough: 8) that make the same calls, each in its own order, from buffers at other places, with and without serde and an environment variable; the outcome is one constant per input (`NrbfSession`)',
    'C23': 'time and allocated memory of each call against `Affordable`, and series that grow in one dimension to 10^5, whose large members must have the outcome the small ones imply (`NrbfEffort`)',
    'C24': 'for every rejected message, the text of the error names a rule that the specification says is broken (`bads`)',
    'C25': 'for every failed from_slice, what the text claims (a type, value, length, field, class) is true of a value in the message, and the target does not take it (`NrbfWhy`)',
}
def table():
    out = ['| | families (records quick/thorough) | what else, and what is judged | states | calls | s |', '|---|---|---|---|---|---|']
    for c, p in plan.PLAN.items():
        e = json.load(open('%s/evidence/%s.json' % (V, c)))['coverage']
        secs = json.load(open('%s/evidence/%s.json' % (V, c)))['wall_s']
        fams = ', '.join('%s %d/%d' % ((f,) + plan.FAM[f][:2]) for f in p['fams']) or '-'
        out.append('| %s | %s | %s%s | %d | %d | %s |' % (c, fams, WHAT[c], ('; walks' if p.get('walk') else '') + ('; samples of the other corpora' if p.get('others') else ''), e['states'], e['traces_validated_against_impl'], round(float(secs)) if secs else ''))
    return '\n'.join(out)
def seeded():
    by = {}
    for d in sorted(os.listdir(V + '/seeded')):
        by.setdefault(json.load(open('%s/seeded/%s/meta.json' % (V, d)))['property'], []).append(d)
    return '\n'.join('- %s: %s' % (c, ', '.join(d.removeprefix(c + '-') for d in ds)) for c, ds in sorted(by.items()))
s = open(V + '/DESIGN.md').read()
for name, f in (('table', table), ('seeded', seeded)):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % name, lambda m: m.group(1) + f() + '\n' + m.group(2), s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
