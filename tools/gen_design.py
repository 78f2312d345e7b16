#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md after the marker from properties.jsonl, MANIFEST.json,
known_findings.txt, seeded/ and the rules in the last evidence files."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/gen_design.py from here on -->\n"
NOTES = {
'C01': "Every load and store whose address is rooted in the database (or in what it holds) is judged against the lock mode at that point; the lock is a typestate per mutex term (unlocked, shared, exclusive), deferred calls run on every way out, panics included. A lazily filled field reached by a read-only operation is a write under the shared lock and is reported. Matching lock/unlock within one critical section is what makes check and act atomic; no schedule is explored because none has to be.",
'C02': "Package variables and what they point to are told apart from fresh memory by the term of the address. `init` is interpreted first and its heap kept, so a table filled in init is known content and a write to it from an operation is a violation. Shared *rand.Rand, shared buffers and memoised values are all writes to such memory.",
'C03': "The content passed to the file is a term naming the epoch of the database memory it was encoded from. At success every later write must be absent, and the write, sync, close and rename it went through must all be known to have succeeded.",
'C04': "At every error return the heap must hold nothing but the entry values for memory that existed at entry. The changes kept after a failed *save* are real, need a rollback (a redesign) and are the eight recorded findings, one per operation; a change kept after any other refusal is still reported.",
'C05': "At each append to the users or keys and each write of a table the state has to know that no entry with this (folded) key existed: a refused lookup of the same key, or a finished scan over all items. For identifiers drawn at random the loop around the draw must be left only when the lookup failed.",
'C06': "An invariant argument: each operation that appends a record writes the table entry for each key of it, each that removes one removes the entry (and only that), loading does both for every element, and a lookup asks with the same normal form. The tables are found by role (what loading fills under usernames, addresses, ids, prefixes).",
'C07': "The normal form of a key (ToLower, TrimSpace and their order) is read off its term, so a helper or another spelling of the fold is the same; all sites must agree and include a case fold.",
'C08': "bcrypt's comparison is a library call whose success is a fact matches(hash term, text term). Success of authentication must carry that fact for a password in the list of *that* user with Disabled and Expired known false, for the text of the request.",
'C09': "Each verification step is a fact over terms: the digest signed is sha256(authData ‖ sha256(clientData)), the key is the one of the token with the asserted id, type, origin, challenge, relying party and the user-present bit are compared with the values of the request. `bin&` terms keep which bit is tested.",
'C10': "As C08 for keys; the owner named in the response must be the term the prefix table gave, and the key must come from that owner's list.",
'C11': "Last stored response code and returned error are compared in every final state, including states in which the code was set by an earlier use of the request.",
'C12': "All reads and writes of records must go through one user term u with username table[fold(name)] = u and email table[fold(mail)] = u both known.",
'C13': "The length must be of the very term that is hashed or stored (not of one before trimming), with both bounds of the policy as facts. Lengths are bytes, as in the code.",
'C14': "The list after the change is a `star` of disabled copies plus one new record; KeepVersions bounds it. Each element must be the old one with Disabled set.",
'C15': "The only ways out for a clear text are bcrypt, constant-time comparison, length, and a prefix of constant length that ends up as APIKey.Prefix.",
'C16': "Permission arguments of OpenFile, WriteFile, Chmod, Mkdir etc. must be constants without group and other bits on every path, and umask is never relied upon.",
'C17': "Text hashed and text verified are compared as functions of the input; the cost must have a constant lower bound.",
'C18': "Typestate: temporary file created in the directory of the target, written in full, synced, closed, renamed, each result tested before the next step; nothing else may touch the target. The crash points are the positions between these calls, so no crash has to be simulated.",
'C19': "Partial operations (assertion, index, slice, division, nil dereference, map write, conversion, library functions with preconditions) must be guarded by facts whenever an operand stems from a request. Loops must have a bound that a request does not set, or an iteration that changes what is retried. Assumes databases made by NewDatabase and results of libraries non-nil when their error is nil; options chosen by the programmer (not the request) are exempt.",
'C20': "The accepted code must be equal, in constant time, to the C40 code for a counter that is the current one or one next to it; the set of counters is read off the unrolled additions.",
'C21': "Stored fields are terms: each must be the request's field under bounds known from the path, or the documented default on the paths where the request's is empty.",
'C22': "Every documented part of the registration must be tested before the token is stored; a scan over the transports must have left the fact that none is unknown.",
'C23': "A deletion is a loop whose summary must say: dropped exactly under id equality, kept unchanged in order otherwise; or a splice at an index whose element is known to have the id.",
'C24': "As C23 for listing: included exactly if not disabled and of the usage asked for.",
'C25': "At the append a finished scan must exclude an equal type and fingerprint (normalised across formats) or secret.",
'C26': "Positive answers need both equalities; a negative one needs that no element has both.",
'C27': "Every error result of a call on every path is bound to a tag; when the function returns, the error must be nil, or the function must fail too. Exempt: probing with os.Stat, closing files that were only read, writers that cannot fail, 'user not found' where another answer (placeholder identity, another lookup) is given.",
'C28': "Size and length are value-numbered together after each Add and each constructor.",
'C29': "The URI is a concatenation of terms; each part stemming from a field must be wrapped in an encoder fitting its place. Field bounds as facts.",
'C30': "For unknown users: stored values are constants or the request's own; refusals of unknown users and wrong passwords are the same error value with the same code, and no user content flows to either. Timing is out of reach: bcrypt runs only for known users, which a static argument cannot judge as observable.",
'C31': "Values stored in the request are terms rooted in the identified user; the second factor must be demanded whenever an enabled token is known to exist on the path (also: no path skips the loop).",
'C32': "On every success path that changed a part of a user, Revision must be the old value plus one (at least) and LastModified a clock reading taken in the operation.",
'C33': "The value is traced back to crypto/rand through unbiased constructions; the alphabet and length are constants. `x % n` over a byte is accepted only if n divides 256.",
'C34': "The path in the database at return is its entry term, and the path opened is the argument.",
'C35': "Types, tags and custom (un)marshalers of the records; no pruning in loading. Finding: Image.Config (an image.Config whose ColorModel is an interface) can be written but not read; needs a change of the public type.",
'C36': "What each parser accepts is a fact on the path (block type, key type, usage), and the stored payload, type, fingerprint are terms of the parsed key.",
'C37': "Small tables of the package are known content; loops over them are unrolled in two orders.",
'C38': "Fields of an entry by origin; anything beyond the list of metadata is a violation, as is a reference to a record (which would give access to the rest).",
'C39': "Facts at the insertion: length of the id, non-empty name, at least one password; for added users an address that contains an at sign and parses.",
'C40': "Truncation is expressed bit by bit over `hmac(hash, secret, be64(counter))`, so every way of writing it (shifts, binary.BigEndian, masks before or after) reduces to one normal form.",
'C41': "Parse and print are compared as terms (split at the first slash; joined by one).",
'C42': "Texts and patterns are folded to constants around the length terms, for each combination of the flags; classes of published patterns are compared with what is enforced. Known limit of the code: of a password the library enforces the lengths only; its classes are published for front ends.",
'C43': "Not applicable (see above).",
'C44': "Frame rule: each operation has a table of the locations it is there to change; any other write to memory that existed at entry is reported. New exported operations are judged only if their name says they are queries (Get, Has, List, Lookup ...).",
'C45': "Fields of new records as terms of the request; times must stem from one clock reading in the operation (or the stated derived time).",
'C46': "Errors are value numbers: the outermost published error and its wrapped cause are read off the term; format strings are constants whose verbs are counted against the arguments and whose cause must be among them. Constants of identical text (ErrDeleteAPIKey, ErrDeletePublicKey) are the same value and cannot be told apart.",
'C47': "On every failing path, each cell of the request that may be read by the caller is compared with its value at entry (or must be a constant); at the store of a generated key, the key must have been added and the save must have succeeded.",
'C48': "Where an earlier password is put into the new list, its index, or a number that is shown by induction to count at least what has been kept (loop variables, the length of the list), must be below the limit; the limit follows from the facts by shortest paths over differences. A list that is cut at the end is judged by its length.",
'C49': "Each field is the decoded value of the same name; where a number is known to be zero on the path, the constant default of that field. All combinations of set and unset fields are separate paths.",
}
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
man = json.load(open(here + '/MANIFEST.json'))
tech = {c['property']: c['technique'].split('; ', 1)[-1] for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
known = [l.strip() for l in open(here + '/known_findings.txt') if l.startswith(('fixed:', 'finding:'))]
seeds = {}
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d)); m['id'] = os.path.basename(os.path.dirname(d)); seeds.setdefault(m['property'], []).append(m)
o = []
o.append("## The properties\n")
o.append("Cost: a check takes 10 to 60 s (one core and 1 to 2 GB; loading and type-checking about 6 s of\nthat). `quick` and `thorough` interpret the same paths; `thorough` also merges states later\n(a deeper bound on the number of distinct states kept apart). In each list the number in\nparentheses is the number of constructs the rule was applied to on the current tree.\n")
for p in props:
    i = p['id']
    o.append("### %s %s\n" % (i, p['title']))
    if i in na:
        o.append("Not applicable: %s\n" % na[i]); continue
    o.append("Method: %s.\n" % tech[i])
    o.append(NOTES[i] + "\n")
    e = json.load(open(os.environ.get('EVIDENCE', here + '/evidence') + '/%s.json' % i))['coverage']['rules']
    for r in sorted(e):
        o.append("* *%s* (%d): %s" % (r, e[r]['constructs'], e[r]['demand']))
    o.append("")
    for l in known:
        m = re.match(r'fixed: property=%s (\w+) (.*)' % i, l)
        if m: o.append("Repaired in /repo (%s): %s.\n" % m.groups())
    f = [l for l in known if l.startswith('finding: property=%s ' % i)]
    for l in f: o.append("Recorded finding: %s.\n" % l.split(' :: ', 1)[1])
    for m in seeds.get(i, []):
        o.append("Planted bug `%s` (needs: %s): %s. Caught by this check.\n" % (m['id'], m['needs'], m['what_it_breaks']))
s = open(here + '/DESIGN.md').read()
s = s.split(MARK)[0].rstrip('\n') + '\n\n' + MARK + '\n' + '\n'.join(o).rstrip('\n') + '\n'
open(here + '/DESIGN.md', 'w').write(s)
