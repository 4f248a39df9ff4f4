"""Writes DESIGN.md: text below, bounds and assumptions from the check modules."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

HEAD = '''# How the properties of HGABAC are decided here

## Method
`run.py <property>` loads the modules of /repo from their current source, instruments them (`symex/loader.py` rewrites
the AST so that branches, comparisons, calls of built-ins, f-strings, `%`-formatting, ... go through the engine) and
executes the real functions with symbolic inputs (`symex/core.py`, `symex/values.py`, `symex/calls.py`). Every branch
on a symbolic condition is decided by z3 (both sides are followed if both are satisfiable); every assertion of a
harness (`checks/cNN.py`) is decided by z3 for all inputs of the path. Choices of structure, of interleaving (where the
other request runs), of the failing call or crash point, of the clock are symbolic variables of the same queries. The
oracle is written in the harness as a formula or as an independent reference (reference lexer, recursive-descent
reference parser, Kleene tables, field-by-field comparison), never a second run of the same code (except where the
property is itself relational: C05, C08).

A counterexample (a z3 model) is turned into concrete inputs and replayed by `symex/replayd.py` under the real
interpreter `/opt/venv/bin/python` with the real third-party libraries (pycryptodome, SQLAlchemy with SQLite, bcrypt,
configparser) against the unmodified /repo; only a counterexample that fails there too is reported as VIOLATION (the
replay file is under evidence/replays/; `run.py --replay FILE` runs it again). Besides, a sample of the explored paths
is solved for a concrete input, executed for real and compared with what the symbolic execution predicted ("traces
validated"); a mismatch marks the run as not exhaustive. Anything the engine cannot encode, a time budget reached or a
mismatch is printed as INCONCLUSIVE and recorded in the evidence (`exhaustive_within_bounds: false`); it is never an
alarm. Nothing is cached between runs: the encoding is regenerated from /repo's working tree each time. Evidence lists
the functions executed symbolically, bounds, paths, queries, solver time and traces validated.

### Values
Integers are unbounded z3 integers (bit operations and fixed-width encodings become div/mod terms), floats are dyadic
rationals within a range where every operation used is exact, texts and byte strings come in two forms: *spelled*
(bounded number of symbolic characters, every operation supported) and *opaque* (one z3 value for the whole content with
a symbolic length up to 70000; can be moved, cut, concatenated, compared, encoded, but not inspected character by
character). Containers, objects, classes, exceptions, generators, closures are the interpreter's own.

### Environment (`models/`)
The libraries are replaced in the symbolic run by models: SQLAlchemy (`sym_orm`: sessions, identity map, queries with
filters and joins, flush order, primary/foreign keys, atomic commit, expiry after commit), pycryptodome (`sym_crypto`:
ideal signatures, ideal hashes, keys of a fixture, encrypted export), bcrypt (ideal), configparser (`sym_conf`), files,
clock, random numbers (`sym_world`), ladon (`sym_net`; ladon is not installed, the replay uses a small stand-in too). A
clock reading, random number, file opening, query, commit or password check is an *event*: harnesses choose
symbolically the event at which the clock moves, another request runs, an error is raised or the process dies (C21,
C32, C33). All sampled paths are compared with the real libraries, so that a wrong model shows as a mismatch.

### Commands
`python3-vt run.py C07 --tier quick|thorough [--verbose] [--case N] [--list]`; `VERIF_REPO=/some/copy` checks a copy.
`tools/selftest.py` (setup_cmd) checks tools and engine. `tools/seed.py SPEC` confirms and stores a planted change,
`tools/matrix.py [prefix]` runs the checks against them, `tools/gen_properties.py`, `gen_manifest.py`, `gen_design.py`
write properties.jsonl, MANIFEST.json and this file.
'''

HOW = {
'C01': ('The real parser and interpreter run on policies built from conditions with free truth values; the result is compared with a table of Kleene logic applied to the reference tree. The operators of ASTResult are also checked alone.', 'tests sample a few combinations; here every assignment of TRUE, FALSE, UNDEF (including plain Python booleans and comparisons of unbounded integers) to every shape is decided'),
'C02': ('One comparison with free operands on both sides (constant or attribute); oracle: the mathematical relation, UNDEF for kinds the operator is not defined on.', 'boundaries between int and float, zero, empty strings, huge integers'),
'C03': ('IN, SUBSET, = and != on sets with free elements; oracle: membership formulas over the elements. A second harness permutes and repeats elements and changes list/set representation.', 'coincidences between elements (1 and 1.0, NULL, repeated) are symbolic'),
'C04': ('Every operator and side with an attribute that is missing, unset or mistyped must give UNDEF; for whole policies: a decided answer must not change when the broken attributes are completed with any values.', 'the completion property is a quantified statement over two runs'),
'C05': ('Relational: after a history of other evaluations (same interpreter, other tables, other policies) the answer and warnings equal those of a fresh interpreter.', 'histories with free attribute states'),
'C06': ('The lexer runs on texts with symbolic characters and is compared token by token (type, value, position, error position) with a reference lexer written from the ABNF; totality: token list or LexerError.', 'every character at every place, including non-ASCII digits and spaces'),
'C07': ('The parser runs on symbolic token sequences (token types are solver variables) and is compared with a reference recursive-descent parser of the ABNF: same acceptance, same tree.', 'all sequences up to the bound'),
'C08': ('Relational: policy text against every re-casing and every change of blanks; same acceptance and same result for every attribute value.', 'all 2^n casings at once'),
'C09': ('decode(encode(tree)) compared node by node (class, token type, value, position), evaluated for any attribute value, and encode leaves the tree unchanged; trees that do not fit the format must be refused.', 'sizes, positions and values are symbolic up to and beyond the field widths'),
'C10': ('Issues of the type checker against a reference judgement of every comparison in order; the level argument decides what is raised.', 'all combinations of kinds, operators and inferred types'),
'C11': ('Histories of symbol table operations against a reference dictionary keyed by (namespace, lower-cased name); builders; evaluation reads the right namespace.', 'all name coincidences are solver decisions'),
'C12': ('evaluate(table, level) raises exactly if a warning of at least that level exists; otherwise gives result and list of warnings; oracle: expected warnings per attribute state.', 'all attribute states and levels'),
'C13': ('Position and token of LexerError / ParserError against the reference lexer/parser; near(n) against the slice formula for every position and length.', 'excerpt arithmetic for texts of any length'),
'C14': ('decode(encode(section) + rest): same fields, rest untouched; values that do not fit must be refused, not cut.', 'lengths on both sides of each field width, multi-byte characters'),
'C15': ('import(export(c)) equals c, field by field, in three formats; second export identical; unsupported formats raise.', 'any combination of present and absent parts and sizes'),
'C16': ('encode, cut at a symbolic position or append symbolic bytes: import must raise.', 'every cut position'),
'C17': ('sign, then change: a field to any other value, two neighbouring fields, a part added, removed, exchanged; verification and verified import must succeed exactly if the signed content is unchanged (ideal signatures make this a statement about which bytes are signed).', 'all pairs of values; catches fields left out of the signed body and ambiguous encodings'),
'C18': ('verify_time and the default validity with symbolic bounds and a clock that may move between readings; oracle: strict comparisons.', 'boundary instants, ticking clock'),
'C19': ('attribute_request with free user names and passwords; issued exactly if the typed name names a stored user whose password was typed.', 'LIKE-style or case tricks, missing values, histories'),
'C20': ('attribute_request with free assignments and selections; the certificate must carry exactly the selected assigned attributes with stored type, name and value, otherwise a client fault.', 'selections and assignments are symbolic, also across two requests'),
'C21': ('The issued certificate verifies, names requester, presented key, authority, configured lifetime from one clock reading, fresh serial, and is what was stored.', 'the clock may tick at any of 16 readings; keys with any bytes'),
'C22': ('The connection attributes against formulas for address parts, calendar fields, serial, lifetime and key.', 'all addresses, every quarter second of the sampled days, all serials'),
'C23': ('start_session succeeds only if every presented certificate is intact, of a supported version and format, from a registered trusted issuer with its registered key, and valid now; and succeeds if all of this holds.', 'all trust levels, times, identifiers, changed fields at once'),
'C24': ('Answer and stored rows of a started session: end = min(expiries, start + 1 day), latest issue, all certificates and links.', 'all orders of times'),
'C25': ('Two certificates with free serials and contents in one or two requests: accepted exactly if serials differ or contents agree; stored content never changes.', 'coincidence of serials is symbolic'),
'C26': ('== and != of sections and certificates: true exactly if all fields agree; reflexive, symmetric, transitive; also for lists in other order.', 'two independent free objects'),
'C27': ('get_conf against the lookup order section, DEFAULT, built-in, separately for services and clients.', 'name coincidences and empty values symbolic'),
'C28': ('Clients against a stand-in server with free status and body: a result is returned only for status 200 with a result; otherwise an exception; requests carry exactly the given values.', 'all statuses and bodies, two calls in a row'),
'C29': ('Listing of trusted authorities and info calls against registered rows and configuration.', 'all field values, changes in between'),
'C32': ('A second request runs at a symbolic event of the first (clock, random number, file, password check, query), or an error / death happens there; both answers and files against what each request alone calls for.', 'all interleaving and failure points of the request'),
'C33': ('As C32 for start_session, with commit failures; database contents against the sessions answered.', 'all failure and interleaving points'),
'C34': ('Composition of issuing and session start (also through both clients): accepted exactly where registered, with its key and level, until expiry.', 'any lifetime, time, identifier, content'),
'C35': ('Text to decision through lexer, parser, type checker, symbol table builder, encoder and interpreter; oracle: reference evaluation of the text as generated.', 'literals, connectives, parentheses and values all symbolic'),
'C36': ('Administration tools against reference row sets; foreign keys enforced; tools also run as program.', 'any order of rows, configuration and selection'),
'C37': ('The URL given to create_engine is parsed as SQLAlchemy does and compared component by component with the configuration; sessions of two services see each other exactly when they share the database.', 'special characters in credentials, fallbacks'),
'C38': ('Key made by the tool opened by the authority with a free passphrase; hash printed by the tool tried with a free password.', 'every passphrase / password pair within bounds'),
'C39': ('Certificates with free sections are shown and compared with an independently written listing; signing on export with free key and algorithm.', 'every field value, presence and number of parts within bounds'),
'C40': ('Self-composition: two runs with free secrets and otherwise equal inputs, recorded messages, faults and certificates compared by the solver; with debugging on, secrets over characters that occur nowhere else are searched in every message.', 'the relation between two runs, for every pair of secrets'),
'C41': ('The server program run as main with free settings; stand-ins record the services, host and port given to them.', 'every spelling and combination of settings within bounds'),
}

TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()


def main():
    out = [HEAD, '\n## Properties\nCost: seconds of the quick tier on 8 cores as measured here.\n']
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    cost = json.load(open(os.path.join(HERE, 'tools', 'cost.json')))
    for p in props:
        i = p['id']
        if i not in HOW:
            continue
        m = importlib.import_module('checks.' + i.lower())
        out.append('### %s %s\n' % (i, p['title']))
        out.append('- Decided by: %s\n- Beyond tests: %s.\n- Bounds (quick): %s.\n- Bounds (thorough): %s.\n- Assumes: %s.\n- Cost: %s s.\n' % (
            HOW[i][0], HOW[i][1], m.BOUNDS['quick'], m.BOUNDS['thorough'], '; '.join(m.ASSUMPTIONS), cost[i]))
    out.append(TAIL)
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
