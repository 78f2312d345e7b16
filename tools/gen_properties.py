#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": None}})

p("C01", "Database operations are atomic, race-free and deadlock-free",
  "Every public operation on a shared database does all of its reads and writes of shared state inside one critical section of the database's lock: at least shared mode to read, exclusive mode as soon as it changes anything, lazily computed values included. The lock is released on every way out and never taken twice by one operation. Concurrent callers therefore never race, never deadlock, and never act on a check made in an earlier critical section.",
  ["schedules"], "for every interleaving of any number of goroutines calling any public Database methods",
  "the tests are single-goroutine and run without the race detector; a missing or too weak lock is invisible to them",
  ["database.go", "user.go", "mfa_token.go"], [("sync.RWMutex taken at the top of each method", "database.go: every exported *Database method")],
  [{"name": "mu", "meaning": "the database lock", "where": "database.go Database"}], ["public methods of Database"])
p("C02", "Library functions share no unsynchronised package state",
  "No exported function or method of the library modifies package-level state (variables, or objects reachable from them, such as a shared random source) after initialisation without synchronisation. Independent databases, users, keys and tokens can thus be created and used from concurrent goroutines.",
  ["schedules"], "for every set of concurrent calls into the library, on the same or on different databases",
  "the tests never call the library from two goroutines",
  ["random.go", "uuid.go", "email.go", "public_key.go", "database.go"], [("package variables are read-only after init; random strings come from a goroutine-safe source", "random.go gen; package var blocks")])
p("C03", "A change reported as successful has been saved",
  "When an operation that changes the database (adding a user, changing a password, adding or deleting a public key, API key or MFA token, saving, copying) returns success, the whole database including that change has been serialised and written to the database's file (for copy: the given file) after the last change was made. A failure to serialise or to write is returned as an error, never as success.",
  ["histories", "fault_sequences"], "for every request, database state and outcome of the file write",
  "the tests reload the file only once and fail the write only by pointing the path at a directory",
  ["database.go"], [("commit() called after the mutation and its error propagated", "database.go AddUser/AddPublicKey/.../commit")], observe=["return value of the mutating operation", "file content"])
p("C04", "An operation that reports an error changes nothing",
  "When a database operation returns an error, the users, their credentials, the lookup tables and the policy are exactly as before the call: every check on the request comes before the first change. This also covers a change whose save failed.",
  ["inputs", "histories", "fault_sequences"], "for every invalid, conflicting or unauthorised request and every failing save",
  "the tests compare error texts, not the state left behind, for a handful of refusals",
  ["database.go", "user.go", "password.go", "mfa_token.go"], [("validate first, mutate last", "database.go AddUser, user.go Add*/Delete*/ChangePassword")])
p("C05", "Usernames, IDs, email addresses and API key prefixes stay unique",
  "No two users of a database ever share a username, an email address (both compared without regard to case), a user ID or an API key prefix: adding a user or an API key, and loading a database file, refuse or avoid every duplicate.",
  ["inputs", "histories"], "for every sequence of additions and every database file",
  "the tests try one duplicate username and one duplicate email; duplicates in a file, by case, or of key prefixes are never tried",
  ["database.go"], [("membership test before every insertion in a lookup table", "database.go NewDatabase, AddUser, AddAPIKey")],
  [{"name": "refUsername/refEmailAddress/refID/refAPIKey", "meaning": "lookup tables", "where": "database.go"}])
p("C06", "Everything accepted can be found again; what is deleted cannot",
  "After a user is added or a database file is loaded, every user can be found by the username, by each email address and by ID, and every API key by its prefix, whatever their length; after an API key is added its prefix leads to its owner, and after it is deleted the prefix leads nowhere. A lookup fails only because no such entry exists.",
  ["inputs", "histories"], "for every accepted user and key, and every later lookup, before and after a reload",
  "the tests look up two fixed users and never an API key",
  ["database.go"], [("lookup tables filled on load and on add, entry removed on API key deletion", "database.go NewDatabase, AddUser, AddAPIKey, DeleteAPIKey, getUserBy*")])
p("C07", "Username and email matching ignores case everywhere",
  "Usernames and email addresses are matched without regard to letter case consistently: the same case folding is applied when an entry is recorded (by adding or by loading), when duplicates are looked for, and when a user is looked up.",
  ["inputs"], "for every spelling of every username and email address", "the tests use lower-case names only",
  ["database.go"], [("strings.ToLower on every key of the username and email tables", "database.go")])
p("C08", "Password authentication succeeds only with a live password of the named user",
  "Authenticating with a password succeeds only if the supplied password verifies against a stored password of the user designated by the supplied username or email address, and that stored password is neither disabled nor expired. Disabled and expired passwords, other users' passwords, unknown users and requests carrying no credential are always refused.",
  ["inputs", "histories"], "for every request and every history of password changes",
  "the tests try two users with right and wrong passwords; they never try an old or expired password",
  ["database.go", "user.go", "password.go"], [("VerifyPassword skips disabled and expired entries", "user.go VerifyPassword"), ("bcrypt comparison", "password.go Match")])
p("C09", "A WebAuthn assertion is accepted only if every verification step passes",
  "Authenticating with a security key succeeds only if, for an enabled and unexpired U2F token of that user whose credential id equals the asserted one: the signature over the authenticator data followed by the SHA-256 of the client data verifies with the token's registered key; the client data (decoded from exactly those signed bytes) has type webauthn.get, is not cross-origin and carries the challenge of the current session; the relying-party hash (decoded from exactly the signed authenticator data) equals the registered one; and the user-present flag is set.",
  ["inputs"], "for every assertion payload, challenge and set of registered tokens",
  "no test exercises the assertion path at all",
  ["user.go", "mfa_token.go", "webauthn.go"], [("sequence of checks before the success return", "mfa_token.go WebAuthnRequest, user.go VerifyWebAuthnRequest")])
p("C10", "An API key identifies only its owner, only while live, only with the full key",
  "Looking up an API key succeeds only if the presented key verifies against the stored hash of an API key that carries the presented key's prefix, belongs to the user registered for that prefix, and is neither disabled nor expired. On success the username and email reported are those of that owner.",
  ["inputs", "histories"], "for every presented key and every history of key creation, disabling and deletion",
  "no test looks an API key up",
  ["database.go", "user.go", "api_key.go"], [("prefix table, then bcrypt comparison", "database.go LookupAPIKey, user.go LookupAPIKey, api_key.go Match")])
p("C11", "Response code and returned error always agree",
  "Authentication sets response code 200 exactly when it returns success and 400 whenever it returns an error. API key lookup and user identification set code 200 only on a path that found and verified the user, and a successful API key lookup always sets it.",
  ["inputs"], "for every request", "the tests read the code only after successful logins",
  ["database.go"], [("Response.Code assignments", "database.go AuthenticateUser, LookupAPIKey, IdentifyUser")])
p("C12", "Account operations act only on the account named by both username and email",
  "Listing, adding or deleting keys and tokens, reading a user, listing users and changing a password succeed only when the request's username and the request's email address designate the same user, and then read or change the credentials of that user only.",
  ["inputs"], "for every request to a per-account operation and every database", "the tests try a mismatch for three of the twelve operations",
  ["database.go"], [("validateUserIdentity", "database.go")])
p("C13", "Username and password length policy is enforced wherever they are set",
  "A user is added only if the username and the password, and a password is changed only if the new password, have a length (of the text that is stored, without surrounding white space for passwords) within the minimum and maximum of the database's policy. A database whose policy leaves a limit or the number of kept password versions unset gets the documented default for it.",
  ["inputs", "configurations"], "for every request and every policy, including files without one", "the tests try one empty username",
  ["database.go"], [("checkPolicyCompliance, checkPasswordPolicyCompliance, enforceDefaultPolicy", "database.go")])
p("C14", "Changing a password needs the current one and retires every older one",
  "A password change succeeds only if the supplied current password verifies as a live password of the user. After a successful change exactly one password is live, the newly supplied one: every previously stored password that is kept is marked disabled.",
  ["inputs", "histories"], "for every request and every history of changes", "the tests change a password once and only check that the new one works",
  ["user.go", "database.go", "password.go"], [("ChangePassword verifies, AddPassword disables", "user.go")])
p("C15", "Clear-text passwords and API keys are never stored or reported",
  "The clear text of a user's password and of a generated API key never reaches the database content (only a bcrypt hash does, plus the fixed-length 24-character lookup prefix of an API key), and never reaches an error message or a log. The clear text of a new API key is handed out once, in the response of the call that created it.",
  ["inputs"], "for every request that carries or creates a secret", "no test inspects stored content or error texts for secrets",
  ["database.go", "user.go", "password.go", "api_key.go"], [("NewPassword hashes before anything is stored", "password.go hash, database.go AddAPIKey")])
p("C16", "The database file is readable by its owner only",
  "Every file the library creates for database content, including copies and temporary files, is created with permissions that give group and others no access, and every directory it creates likewise; permissions are never widened afterwards.",
  ["configurations"], "for every path, existing or not", "no test looks at file modes",
  ["database.go", "internal/utils/file.go"], [("0600 / 0700 modes", "database.go NewDatabase, commit")])
p("C17", "A password that was set verifies, and is hashed strongly",
  "The text normalisation applied to a password when it is hashed is the same as the one applied when it is verified, so the very text a user set is accepted afterwards. Every stored hash comes from bcrypt with a cost of at least 8, and empty or blank passwords are refused.",
  ["inputs", "configurations"], "for every password, including ones with surrounding white space, and every cost parameter", "the tests use alphanumeric passwords",
  ["password.go"], [("hash and Match", "password.go")])
p("C18", "A crash during a save never loses the previous content",
  "At every instant during a save or copy the target path holds either its complete previous content or the complete new content: new content is written to a temporary file in the same directory, flushed to stable storage with every error checked, and then renamed over the target. The target itself is never truncated, removed or written in place.",
  ["crash_points", "fault_sequences"], "for a crash or write error at every point of every save", "no test interrupts a save",
  ["database.go", "internal/utils/file.go"], [("write temporary file, sync, close, rename", "internal/utils/file.go, database.go commit")])
p("C19", "No request can crash or hang an operation",
  "Whatever the request contains, including arbitrary decoded JSON in WebAuthn payloads, public operations return normally: no failed type assertion, no nil dereference of an optional part of a payload, no out-of-range index or slice, no explicit panic, and no retry loop that can repeat forever without drawing new values.",
  ["inputs"], "for every request and WebAuthn payload", "the tests feed one valid registration payload and no malformed ones",
  ["mfa_token.go", "webauthn.go", "database.go", "public_key.go", "name.go", "email.go", "role.go"], [("presence, length and type checks before use", "mfa_token.go NewMfaToken, WebAuthnRequest; database.go LookupAPIKey")])
p("C20", "A one-time passcode is accepted only for this token and the adjacent periods",
  "A passcode is accepted only if it equals, in constant-time comparison, the code computed from the token's own secret, algorithm and number of digits for the period of the given time, the one before or the one after. Empty passcodes and passcodes whose length differs from the token's digits are refused; validating without an explicit time uses the current time and refuses tokens that are not TOTP tokens.",
  ["inputs"], "for every passcode, token and time", "the tests try the right code, a fixed wrong one and an empty one",
  ["mfa_token.go"], [("ValidateCode, ValidateCodeWithTime, generateMfaCode", "mfa_token.go")])
p("C21", "A TOTP token is enrolled only with valid parameters and a proven passcode",
  "A TOTP token is created only with algorithm sha1, sha256 or sha512 (sha1 if none is given), a period of 30 to 300 seconds, 4 to 8 digits (6 if none is given), and a passcode that validates against exactly the secret, algorithm, period and digits that are then stored. Tokens of an empty or unknown type are never created.",
  ["inputs"], "for every enrolment request", "the tests sample a few out-of-range values",
  ["mfa_token.go"], [("NewMfaToken totp branch", "mfa_token.go")])
p("C22", "A security key is enrolled only from a complete, supported registration",
  "A U2F token is created only from a registration payload with a credential id, key type public-key, only known transports, attested relying-party hash, flags and public key, and with the EC2 key type and ES256 algorithm (and P-256 if a curve is named), together with a non-empty session challenge. The credential id, relying-party hash, flags, signature counter and key coordinates stored are those of that payload.",
  ["inputs"], "for every registration payload", "the tests enrol one valid payload and no invalid one",
  ["mfa_token.go"], [("NewMfaToken u2f branch", "mfa_token.go")])
p("C23", "Deleting removes exactly the designated item",
  "Deleting a public key, API key or MFA token removes only items whose id equals the requested id, keeps every other item of that user unchanged and in order, touches no other kind of credential, and reports an error if no item has that id.",
  ["inputs", "histories"], "for every list of items and every id", "the tests delete everything or a missing id",
  ["user.go"], [("DeletePublicKey, DeleteAPIKey, DeleteMfaToken filter loops", "user.go")])
p("C24", "Listings contain exactly the enabled items that were asked for",
  "Listing public keys or API keys returns exactly those items of the user that are not disabled and whose usage equals the requested usage; listing MFA tokens returns exactly those not disabled; listing users returns one entry per user.",
  ["inputs", "histories"], "for every stored list and every requested usage", "the tests list one usage with at most one disabled token",
  ["database.go"], [("filter loops of GetPublicKeys, GetAPIKeys, GetMfaTokens, GetUsers", "database.go")])
p("C25", "The same credential is never registered twice for a user",
  "Adding a public key is refused if the user already has a key of the same type and fingerprint, in whatever format either was supplied; adding an MFA token is refused if the user already has one with the same secret or the same comment.",
  ["inputs", "histories"], "for every list of registered credentials, whichever position the duplicate is in", "the tests try one duplicate token of each kind and no duplicate public key",
  ["user.go", "public_key.go"], [("duplicate scans in AddPublicKey and AddMfaToken", "user.go")])
p("C26", "A role is held only if both name and organisation match",
  "A user is reported to have a role only if one of the user's roles has the same name and the same organisation as the one asked for, and adding a role is skipped only if such a role is already present. An unparsable or empty role is never held and never added.",
  ["inputs"], "for every set of roles and every role string", "the tests use one role without organisation",
  ["user.go", "role.go"], [("HasRole, AddRole comparisons", "user.go")])
p("C27", "Failures are never swallowed or turned into success",
  "No error returned inside the library or the command-line tool is dropped: it is returned to the caller, wrapped, or deliberately turned into a refusal. Building an error from a non-nil cause never yields nil, and no refusal in the code can evaluate to nil.",
  ["inputs", "fault_sequences"], "for every call that can fail and every refusal", "most failure branches are never executed by the tests",
  ["pkg/errors/errors.go", "database.go", "user.go", "mfa_token.go", "public_key.go", "cmd/authdbctl/main.go"], [("if err != nil { return ... } discipline; StandardError.WithArgs", "all files")])
p("C28", "A bundle's size is the number of items in it",
  "For every collection the library hands out (users, public keys, API keys, MFA tokens) the reported size equals the number of items returned, after any number of additions, and an added item is appended to the end of the collection.",
  ["histories"], "for every sequence of additions", "the tests add at most a few items and rarely compare the two",
  ["user.go", "public_key.go", "api_key.go", "mfa_token.go"], [("Add appends and increments", "Add methods of the bundles")])
p("C29", "A provisioning URI is built only from valid fields, all encoded",
  "A QR provisioning URI is produced only if the label and secret are set, the secret has at least 6 characters, the digits are 4 to 8 (6 if unset), the period 30 to 180 seconds (30 if unset), the type totp or hotp (hotp with a counter of at least 1), and the algorithm empty or one of sha1, sha256, sha512. Label and issuer appear in it only URL-escaped and the secret only base32-encoded; the encoded form is the base64 of exactly the same text, and a failed build leaves the previous code untouched.",
  ["inputs"], "for every combination of fields", "the tests sample one invalid value per field and no special characters",
  ["pkg/qr/qr.go"], [("validate, Build", "pkg/qr/qr.go")])
p("C30", "Unknown users cannot be told apart before authentication",
  "Identifying an unknown user returns success with a placeholder identity and a password challenge, disclosing nothing of any real user. Authenticating an unknown user always performs a password hash of the supplied (non-blank) password before refusing.",
  ["inputs"], "for every unknown username or email", "the tests check the error text of one unknown user",
  ["database.go"], [("IdentifyUser placeholder; dummy NewPassword in AuthenticateUser", "database.go")])
p("C31", "Challenges and flags never understate or misattribute a second factor",
  "Identifying a known user reports that user's own username, primary email, name and roles and always includes a password challenge; if the user has an enabled MFA token, it also includes the mfa challenge. When flags are requested they are raised exactly for the user's enabled tokens: configured for any, app for TOTP, universal for U2F.",
  ["inputs", "histories"], "for every user and token list", "the tests identify users without tokens only",
  ["user.go", "database.go"], [("GetChallenges, GetFlags, IdentifyUser", "user.go, database.go")])
p("C32", "Every successful change is visible in revision and modification time",
  "Every successful change of a user's password, email, name, roles, public keys, API keys or MFA tokens increments that user's revision and refreshes the modification time, and every save increments the database revision and refreshes its modification time before the content is serialised.",
  ["histories"], "for every sequence of changes", "the tests never read a revision",
  ["user.go", "database.go"], [("Revise(); commit()", "user.go, database.go")])
p("C33", "API keys and identifiers are unpredictable",
  "Generated API keys, and the identifiers that the library generates for users, keys and tokens (a PGP key keeps the id that follows from the key itself), are drawn entirely from the operating system's cryptographic random source, never from a seeded or time-derived generator; characters picked from an alphabet are picked with equal chances from all of its at least 32 characters; and a generated API key has at least 72 characters.",
  ["inputs"], "for every generated value", "tests cannot distinguish a predictable generator",
  ["random.go", "uuid.go", "database.go"], [("gen, NewID", "random.go, uuid.go")])
p("C34", "Copying a database never redirects later saves",
  "Copying writes the current content to the given path and to nothing else, and whether or not it succeeds, the database keeps saving to its original path afterwards; the path a database reports is always its own.",
  ["histories", "fault_sequences", "schedules"], "for every copy target, success or failure, and concurrent readers of the path", "the tests copy once, successfully, and do not save afterwards",
  ["database.go"], [("Copy restores the path", "database.go")])
p("C35", "Nothing a user relies on is lost by a save and reload",
  "Every public field of every record in a database (users, names, emails, passwords, public keys, API keys, MFA tokens, policy) is written when the database is saved and read back under the same name when it is loaded: no field is excluded, and no two fields of a record share a name.",
  ["histories"], "for every record and field", "the tests reload one user and compare only the count",
  ["database.go", "user.go", "password.go", "api_key.go", "public_key.go", "mfa_token.go", "email.go", "name.go", "role.go"], [("struct tags; json.MarshalIndent / json.Unmarshal of the same type", "type declarations")])
p("C36", "A public key is stored only if it parses as what it claims to be",
  "A public key is accepted only with usage ssh or gpg and a payload of the matching kind that was successfully parsed: RSA PEM or OpenSSH payloads only for ssh, PGP blocks, of exactly one key, only for gpg. The stored type and fingerprint are those of the parsed key.",
  ["inputs"], "for every payload and usage", "the tests try one mismatch of the three",
  ["public_key.go"], [("parse and its three parsers", "public_key.go")])
p("C37", "A card's issuer and association are always supported ones",
  "Setting the issuer or association of a credit card records an entry of the published lists whose name (or, for issuers, alias) matches the given string, and otherwise reports an error and leaves the card unchanged.",
  ["inputs"], "for every string", "no test sets an issuer or association",
  ["credit_card.go"], [("AddIssuer, AddAssociation", "credit_card.go")])
p("C38", "Listing users discloses metadata only",
  "The entries returned by listing users carry only identifying metadata (id, enabled, username, title, name, email, timestamps, revision, avatar path), each taken from the same user, and nothing derived from passwords, keys, tokens or their secrets.",
  ["inputs"], "for every database", "the test compares two users without keys or tokens",
  ["user.go", "database.go"], [("GetMetadata", "user.go")])
p("C39", "Only valid users ever enter a database",
  "A user is accepted, when added or when loaded from a file, only if it has a 36-character id, a non-empty username and at least one password; an added user also has a syntactically valid email address and only non-empty roles. Loading refuses a directory, an unreadable file, malformed content and null entries, and it reads the very file that is later saved to.",
  ["inputs"], "for every request and every database file", "the tests load one good file and one directory",
  ["database.go", "user.go", "email.go"], [("User.Valid, NewEmailAddress, NewDatabase", "user.go, email.go, database.go")])
p("C40", "Generated one-time codes follow RFC 6238",
  "For every secret, supported algorithm, number of digits and period counter, the generated code is the RFC 4226/6238 value, zero-padded to the number of digits.",
  ["inputs"], "for every secret, algorithm, digits and counter", "the tests compare the generator with itself",
  ["mfa_token.go"], [("generateMfaCode", "mfa_token.go")])
p("C41", "Names, roles and claims are read and printed consistently",
  "A role text without a slash names a role; with one, the part before the first slash is the organisation and the rest the name, and the role is printed with the two joined again. A name is read as 'Last, First' or 'First Last' and printed as 'Last, First'. The claims of a user report the name as printed, the text of every one of the user's roles, and the email address that is marked primary or else the first one.",
  ["inputs"], "for every role, name and user", "the tests sample two roles and a few names, and claims of users with one role and one address",
  ["role.go", "name.go", "user.go"], [("NewRole/String, ParseName/GetFullName", "role.go, name.go"), ("GetMailClaim, GetNameClaim, GetRolesClaim", "user.go")])
p("C42", "Policy summaries and patterns describe the policy that is enforced",
  "The published summaries and patterns of usernames and passwords give the minimum and maximum lengths of the policy, which are those a new username has to meet, and mention (summary) or demand or admit (pattern) each class of characters if and only if the policy says so; the patterns are anchored at both ends.",
  ["configurations"], "for every policy", "the test compares the texts of the default policy only",
  ["database.go"], [("GetUsernamePolicySummary/Regex, GetPasswordPolicySummary/Regex", "database.go"), ("checkUserPolicyCompliance", "database.go")])
p("C43", "Saved content reloads to an equal database",
  "Loading a saved file yields a database equal, value by value, to the one that was saved.",
  ["histories"], "for every database value", "the tests compare counts",
  ["database.go"], [("encoding/json round trip", "database.go")])
p("C44", "Each operation changes only its own subject; queries change nothing",
  "An operation that changes a user's password, emails, names, roles, public keys, API keys or MFA tokens changes that part alone (and the revision, the modification time and the lookup tables that belong to it): every other list, field and record stays as it was. An operation that only looks something up (getting, listing, identifying, authenticating, verifying, validating) changes no stored record, list or lookup table and writes, creates and removes no file.",
  ["inputs", "histories"], "for every operation, request and database", "the tests look at the one thing each operation changes and never at what should have stayed",
  ["database.go", "user.go", "password.go", "api_key.go", "public_key.go", "mfa_token.go"], [("operations on database, user and records", "database.go, user.go")])
p("C45", "New records carry what was asked for, and when they were made",
  "A successfully added user has the requested username, email address (also in the list of addresses), every requested role and, if a full name was given, a name read from it; a successfully added public key, API key or MFA token has the requested usage or type and comment (a public key may add or use the comment of its payload), and is disabled if and only if that was requested. Creation, disabling and modification times are recorded as the present time in UTC. Disabling a password, key or token always marks it both disabled and expired.",
  ["inputs"], "for every request", "the tests compare a few fields of a handful of requests and never a time or a disabled record",
  ["user.go", "database.go", "api_key.go", "public_key.go", "mfa_token.go", "password.go"], [("NewUserWithRoles, NewAPIKey, NewPublicKey, NewMfaToken, Disable", "user.go, api_key.go, public_key.go, mfa_token.go")])
p("C46", "Every failure is reported under its operation's error, completely worded",
  "Whatever makes a database operation fail, the returned error is one of the published errors of that operation (found with errors.Is and by unwrapping), and the text of every error is complete: as many arguments as the text has placeholders, each of a kind that fits, and no error with placeholders is reported bare.",
  ["inputs", "fault_sequences"], "for every failing call, also those that only a failing disk or a rare request provokes", "the tests provoke a fraction of the 150 places that report an error, and those behind I/O failures never",
  ["pkg/errors/errors.go", "database.go", "user.go", "mfa_token.go", "public_key.go"], [("StandardError.WithArgs and its callers", "pkg/errors/errors.go")])
p("C47", "A refused request is handed nothing",
  "When an operation returns an error, the request it was given carries no answer: the identity in it, its flags and the payload of its response are as the caller left them, or hold fixed values that say nothing about the stored users and keys. A new API key, which is shown once only, is handed out only after it was added to the user and the database was saved.",
  ["inputs", "fault_sequences"], "for every refused request, also those that only a failing disk refuses", "the tests look at the error of a refused request and never at what else the request carries",
  ["database.go", "user.go", "mfa_token.go"], [("operations that take a request", "database.go")])
p("C48", "A password change keeps no more earlier passwords than the policy says",
  "After a successful change of a password the user has the new password and at most as many earlier ones as the password policy's number of versions to keep (at most ten where none is set), however many there were before and however often the password is changed.",
  ["inputs", "histories"], "for every policy, user and history of changes", "the tests change a password once or twice and never reach the limit",
  ["user.go", "database.go"], [("User.AddPassword, ChangePassword, Database.ChangeUserPassword", "user.go, database.go")])
p("C49", "A database keeps the policy it was saved with",
  "An opened database has exactly the policy its file gives: every flag and every number as saved, except that a number the file leaves unset has the library's default (usernames of 3 to 50 characters, passwords of 8 to 128, 10 earlier passwords kept). A new database has these defaults and every flag off. No operation on a database changes its policy.",
  ["inputs", "histories"], "for every content of the file, every combination of set and unset fields, and every operation", "the tests open a file with a complete policy and one with none, and none of the combinations between",
  ["database.go"], [("NewDatabase, enforceDefaultPolicy", "database.go")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
