#!/usr/bin/env python3
"""Authoring helper: (re)writes properties.jsonl from the table below. Not run by any check."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

U = "src/signed_url.rs"; PU = "src/private/signed_url.rs"; CR = "src/private/canonical_request.rs"
ST = "src/private/string_to_sign.rs"; CS = "src/private/credential_scope.rs"; F = "src/html_form_data.rs"
K = "src/signing_key.rs"; KI = "src/private/signing_key_inner.rs"; BT = "src/private/bound_token.rs"
UT = "src/private/utils/unix_timestamp.rs"; PD = "src/private/policy_document.rs"
CO = "src/private/policy_document/condition.rs"; FI = "src/private/policy_document/field.rs"
EX = "src/private/expiration.rs"; PE = "src/private/policy_document/expiration.rs"
HV = "src/private/http_verb.rs"; SA = "src/private/signing_algorithm.rs"

p("C01", "A signed URL addresses exactly the requested bucket and object",
  "Every signed URL that is returned starts with https://storage.googleapis.com/ and its path, once percent-decoded, is exactly '/' + bucket name + '/' + object name, for every bucket and object name. A name can never add, drop or replace a path segment, query parameter, fragment or host; a name that no URL path can carry faithfully yields an error instead of a URL for something else.",
  ["inputs"], "all bucket_name / object_name strings, including '?', '#', '%', '..', control characters, whitespace and non-ASCII text",
  "Tests only use plain ASCII names; the repository's own comment says escaping is missing.",
  [U, PU, CR], [("escaping of bucket and object before the URL is parsed", U), ("path copied from the request URI into the URL", PU)], observe=["build_signed_url"])
p("C02", "The returned URL is exactly what was signed",
  "In every returned signed URL, the query string before X-Goog-Signature is byte-for-byte the canonical query string inside the signed canonical request, and the URL's path and the signed path come from the same request path. The URL ends with &X-Goog-Signature= followed by the hex form of the signature computed over exactly the string-to-sign built from that request; nothing else is added.",
  ["inputs", "configurations"], "all option values, all signing key kinds",
  "No test checks a complete signed URL offline; the live tests are ignored.",
  [PU, ST, CR], [("assembly of the URL and of the message that is signed", PU)], observe=["build_signed_url"])
p("C03", "String-to-sign and canonical request follow the V4 layout",
  "The signed message is exactly four lines joined by single newlines: algorithm label, request timestamp, credential scope, and the lowercase hex SHA-256 of the canonical request. The canonical request is exactly: method, percent-encoded path, canonical query string, canonical headers (one per line), an empty line, signed header names, and UNSIGNED-PAYLOAD.",
  ["inputs"], "all requests",
  "One example canonical request is compared; the string-to-sign is never compared to anything.",
  [ST, CR], [("joining of the lines", ST), ("joining of the lines", CR)], observe=["build_signed_url"])
p("C04", "Every request header is signed, once, in canonical form",
  "Every header supplied by the caller, plus host with value storage.googleapis.com, appears in the signed canonical headers and its name in X-Goog-SignedHeaders, and no other header does. Names are lowercase, distinct and sorted; the header list in the query, the list in the canonical request and the canonical header lines name the same headers in the same order. Values have surrounding whitespace removed, and values of a repeated header are joined with ',' in the order supplied.",
  ["inputs"], "all header lists, with repeats, mixed case and arbitrary values",
  "One fixed header set; the caller's header option has an empty TODO test.",
  [U, PU, CR], [("header collection", U), ("X-Goog-SignedHeaders", PU), ("canonical headers / signed headers", CR)], observe=["build_signed_url"])
p("C05", "Query parameters of a signed URL are complete, unique and sorted",
  "The signed query contains each caller-supplied (name, value) pair exactly as often as supplied, plus exactly one each of X-Goog-Algorithm, X-Goog-Credential, X-Goog-Date, X-Goog-Expires and X-Goog-SignedHeaders, and nothing else before the signature. Pairs are encoded name=value, sorted by encoded name and then encoded value, and joined with '&'.",
  ["inputs"], "all query parameter lists, including duplicates, empty names or values",
  "One fixed query string; the caller's query option has an empty TODO test.",
  [U, PU, CR], [("query pairs added", PU), ("canonical query string", CR)], observe=["build_signed_url"])
p("C06", "Percent-encoding is lossless and keeps URLs well-formed",
  "In the query of a signed URL every byte of every parameter name and value outside A-Z a-z 0-9 - . _ ~ is written as '%' plus two uppercase hex digits of that byte, so decoding the query once gives back the original text of each name and value. No unescaped space, control character, '%', '&', '=', '#' or non-ASCII character from an input ever appears in the URL text, nor do the reserved characters ?=!#$&'()*+,:;@[]\" appear unescaped in the canonical request's path.",
  ["inputs"], "every character of every parameter name, value, bucket and object name",
  "The test encodes one string of 18 reserved characters and never anything else.",
  [CR, U], [("percent-encoding table", CR)], observe=["build_signed_url"])
p("C07", "Signed URL lifetime is exact and never exceeds seven days",
  "X-Goog-Expires is the whole number of seconds from accessible_at to expires, rounded down, and always lies in 0..=604800. If expires is before accessible_at, or more than 604800 whole seconds after it, an error is returned and no URL; no lifetime within that range is refused.",
  ["inputs"], "all pairs of instants, including sub-second differences and range ends",
  "Tests cover the range check of the number alone at four values, not the computation from the two instants.",
  [U, EX], [("duration computation", U), ("range check", EX)], observe=["build_signed_url"])
p("C08", "All timestamps in one signature come from one instant",
  "In signed URLs and in forms the date in the credential scope and the request timestamp (X-Goog-Date / x-goog-date) are the UTC date and the UTC date-time of the same instant: accessible_at when given, otherwise a single reading of the current time. The lifetime is measured from that same instant, and in the signed message, the query, the form fields and the policy the same two strings are used.",
  ["inputs", "schedules"], "all instants, including ones next to midnight; any clock movement during the call",
  "A fixed noon-like instant is used; a second clock reading would pass every test.",
  [U, F, UT], [("single clock read and derivations", U), ("single clock read and derivations", F)], observe=["build_signed_url", "HtmlFormDataBuilder::build"])
p("C09", "Only the five supported HTTP methods are signed, and as given",
  "The method in the signed canonical request is exactly the requested one, which must be one of DELETE, GET, HEAD, POST, PUT in upper case; each of these five is accepted. Any other method string yields an error.",
  ["inputs"], "all method strings",
  "No offline test parses a method or looks at the signed method per verb.",
  [HV, U, CR], [("parse table", HV), ("print table", HV)], observe=["build_signed_url"])
p("C10", "The credential names the key's own account and the request's scope",
  "X-Goog-Credential and x-goog-credential are account/DATE/REGION/storage/goog4_request, where account is the e-mail (or access id) of the signing key in use and REGION is the given region verbatim, or auto if none is given. The credential scope in the signed string is the same scope, in signed URLs and forms alike.",
  ["inputs", "configurations"], "all key kinds, regions, instants",
  "One form test uses the default region with a service account key; no test gives a region through the public API.",
  [CS, U, F, PU, KI], [("scope display", CS), ("credential assembly", PU), ("credential assembly", F)], observe=["build_signed_url", "HtmlFormDataBuilder::build"])
p("C11", "Instants outside years 0000-9999 are rejected",
  "An accessible_at or form expiration before 1970-01-01T00:00:00Z or at or after 10000-01-01T00:00:00Z makes the operation return an error. It never wraps, is never clamped, and never yields a timestamp that is not the instant given, cut to whole seconds.",
  ["inputs"], "all SystemTime values",
  "The range ends are tested for the integer conversion only, not for the public operations.",
  [UT, U, F], [("range check", UT)], observe=["build_signed_url", "HtmlFormDataBuilder::build"])

p("C12", "The signed policy pins every form field to the value submitted",
  "When a form is signed, each emitted field other than policy, x-goog-signature and Content-Length has exactly one exact-match condition in the policy with the same field name and the same value, and Content-Length has exactly one content-length-range condition with both bounds equal to its value. The policy contains no other conditions.",
  ["inputs", "configurations"], "all combinations of set and unset fields and all values, any number of x-goog-meta fields",
  "One signed form with every optional field set; 2^11 combinations of optional fields and all other values are unexplored.",
  [F, PD], [("conditions built per field", F), ("fields emitted", F)], observe=["HtmlFormDataBuilder::build"])
p("C13", "A form contains exactly the fields that were set, with their values",
  "Each optional field that was set is emitted exactly once under its documented name with exactly the value given (numbers in decimal), and unset fields are not emitted. The x-goog-meta-* fields follow in the order added, each named x-goog-meta- plus the given name; the relative order of fields is the documented one.",
  ["inputs", "configurations"], "all combinations of set and unset fields and all values",
  "Only the all-set, key-only and bucket+key cases are compared.",
  [F], [("fields emitted", F)], observe=["HtmlFormDataBuilder::build"])
p("C14", "The form signature covers exactly the emitted policy",
  "The x-goog-signature of a form is the hex of a signature made with the given key over exactly the text of the emitted policy field, and that text is the standard padded base64 of the JSON of the policy document built for this form. The emitted x-goog-algorithm, x-goog-credential and x-goog-date equal those inside the policy.",
  ["inputs", "configurations"], "all forms and keys",
  "A single golden value covers one form.",
  [F], [("encode, sign and return the same text", F)], observe=["HtmlFormDataBuilder::build"])
p("C15", "A signed form expires exactly when asked, and only in the future",
  "The policy's expiration is the requested expiration instant cut to whole seconds, printed as YYYY-MM-DDTHH:MM:SSZ in UTC. If the requested expiration is not strictly after accessible_at (or the current time when that is absent) an error is returned and nothing is signed.",
  ["inputs"], "all pairs of instants",
  "One pair one day apart; the error case is never tested.",
  [F, PE, UT], [("comparison of the instants", F), ("expiration printed", PE)], observe=["HtmlFormDataBuilder::build"])
p("C16", "Forms with missing mandatory parts are refused",
  "Building a form fails when no key is set, when any x-goog-meta field has an empty name, and, if signing is requested, when no bucket is set; this holds whatever else is set. In all other respects field values do not cause a failure.",
  ["inputs", "configurations"], "all builder states, signed or not",
  "Missing key and empty meta name are tested only without signing; missing bucket never.",
  [F], [("checks in both halves of build", F)], observe=["HtmlFormDataBuilder::build"])
p("C17", "Signing fields appear all together or not at all",
  "If signing options are set, a built form contains policy, x-goog-algorithm, x-goog-credential, x-goog-date and x-goog-signature, each exactly once; if they are not set it contains none of these. There is no input for which a form that was asked to be signed is returned unsigned.",
  ["inputs", "configurations"], "all builder states",
  "Two signed and two unsigned examples.",
  [F], [("build and policy helper", F)], observe=["HtmlFormDataBuilder::build"])
p("C18", "Builder calls set only their own field",
  "Each builder call changes exactly the field it is named after, to the value given: calling a setter again replaces its earlier value, adding an x-goog-meta pair appends to the earlier ones, and no call alters, drops or reorders any other field. A new builder has nothing set.",
  ["inputs", "histories"], "all sequences of builder calls",
  "Each setter is called once, in one order.",
  [F], [("setters", F)], observe=["HtmlFormDataBuilder"])
p("C19", "Policy documents are serialised in the form Cloud Storage reads",
  "The policy JSON is an object with members conditions and expiration; an exact-match condition is the array [\"eq\", \"$\"+field name, value], a prefix condition is [\"starts-with\", \"$\"+field name, value], and a length condition is [\"content-length-range\", min, max] with two numbers in that order. Conditions keep the order in which they were built.",
  ["inputs"], "all policy documents",
  "A few fixed documents are compared.",
  [CO, PD, PE], [("Serialize implementations", CO)], observe=["HtmlFormDataBuilder::build"])
p("C20", "Policy field names parse and print as inverses",
  "Every field name the policy vocabulary accepts prints back as exactly the same text, distinct names denote distinct fields, and every name the form builder uses is accepted; any x-goog-meta- name with a non-empty suffix is accepted and all other unknown names are rejected. In policy conditions read back from JSON, Content-Length is refused as an exact or prefix match field and the array and object spellings give the same condition.",
  ["inputs"], "all names",
  "Each known name is tried once, against tables that a change could alter in step.",
  [FI, CO], [("parse table", FI), ("print table", FI)], observe=["HtmlFormDataBuilder::build"])

p("C21", "The declared algorithm always matches the key that signs",
  "Service account and bound token keys are always declared as GOOG4-RSA-SHA256, in the URL or form and in the signed text alike. An HMAC key never yields a signature, URL or signed form: both operations return an error for it.",
  ["inputs", "configurations"], "all key kinds and both operations",
  "No test uses an HMAC key; signed URLs are not tested offline.",
  [KI, SA, F, PU], [("algorithm selection", KI), ("signing dispatch", KI)], observe=["build_signed_url", "HtmlFormDataBuilder::build"])
p("C22", "The use_sign_blob choice is honoured or refused, never swapped",
  "With use_sign_blob=false a signature is only ever produced locally from a service account private key; with use_sign_blob=true only ever by the remote signBlob service for a bound token. The combinations bound token + false and service account + true return an error.",
  ["inputs", "configurations"], "key kind x use_sign_blob x operation",
  "One of the eight combinations is tested for its error and one for success.",
  [KI], [("signing dispatch", KI)], observe=["build_signed_url", "HtmlFormDataBuilder::build"])
p("C23", "Service account signing is offline and deterministic",
  "Building a signed URL or a form with a service account key performs no network request and reads no environment variable or file. When accessible_at is given, the clock is not read either and the result is a function of the arguments alone.",
  ["inputs", "configurations", "histories"], "all inputs with a service account key",
  "Tests cannot observe the absence of an effect on every input.",
  [KI, PU, F, U], [("signing dispatch", KI)], observe=["build_signed_url", "HtmlFormDataBuilder::build"])
p("C24", "Local signatures are RSA PKCS#1 v1.5 SHA-256 with the given key",
  "A locally produced signature is the full output of RSA PKCS#1 v1.5 with SHA-256 over exactly the message, made with the private key parsed from the caller's PEM text. A key that cannot be parsed yields an error; there is no fallback key.",
  ["inputs"], "all messages and private keys",
  "One golden signature with one key.",
  [KI], [("ring call", KI)], observe=["build_signed_url", "HtmlFormDataBuilder::build"])
p("C25", "Secrets reach only the signer and the authorised request",
  "A private key or HMAC secret never becomes part of a URL, form, request or error message. An access token is sent only in the Authorization header of the signBlob request to https://iamcredentials.googleapis.com, and is never part of a URL, form, error message or other request.",
  ["inputs", "fault_sequences"], "all inputs, responses and failure points",
  "Tests never look for secrets in outputs or errors.",
  [KI, BT, K], [("uses of the secret fields", KI), ("uses of the token", BT)], observe=["all public operations"])
p("C26", "Keys and signing options cannot be printed or serialised",
  "The signing key type and every public type that holds one implement neither Debug, Display nor any serialisation trait, so a program cannot print a secret by accident.",
  ["programs"], "all programs using the crate",
  "A test cannot state that a program must not compile.",
  [K, U, F, KI], [("absence of derives", K)], observe=["type system"])
p("C27", "Service account JSON is read strictly",
  "Parsing service account JSON takes the account from the string member client_email and the key from the string member private_key of the top-level object, both unchanged, and ignores everything else. Invalid JSON, a non-object, or a missing or non-string member gives an error; reading from a path gives the same result as parsing the file's text.",
  ["inputs"], "all JSON texts",
  "Only the empty string is ever parsed.",
  [K], [("service_account_from_str", K)], observe=["SigningKey::service_account_from_str", "SigningKey::service_account_from_path"])
p("C28", "Signatures are printed as complete lowercase hex",
  "The signature text in URLs and forms has exactly two lowercase hexadecimal digits for each byte of the signature, in order, with leading zeros kept. Nothing is truncated, separated or prefixed.",
  ["inputs"], "all signature byte strings",
  "One golden signature.",
  [PU, F], [("hex_encode", PU)], observe=["build_signed_url", "HtmlFormDataBuilder::build"])

p("C29", "A cached token is reused only while it stays valid for over 30 s",
  "A cached access token is used without a refresh only if its expiry is more than 30 seconds after the current time; otherwise a fresh account and token are fetched before use. The recorded expiry is the time at which the token response was handled plus the lifetime it states.",
  ["inputs", "histories", "schedules"], "all token lifetimes and call times",
  "No test makes a second call or lets a token expire.",
  [BT], [("cache guard", BT)], state=[("cache", "account, token and expiry", BT)], observe=["SigningKey::bound_token"])
p("C30", "The token cache only ever holds a complete, validated refresh",
  "The cache is written only after the account and token requests both succeeded, the token response was parsed and its type is exactly Bearer, and it is written with the account, token and expiry of that same refresh. Any failure leaves the cache as it was and is returned as an error.",
  ["fault_sequences", "histories"], "failure of any request or validation at any point",
  "One failing e-mail request is tested, without looking at later calls.",
  [BT], [("refresh branch", BT)], state=[("cache", "account, token and expiry", BT)], observe=["SigningKey::bound_token"])
p("C31", "Token refresh is single-flight and shared by clones",
  "Checking the cache, refreshing and storing happen under one uninterrupted lock, so concurrent signing with one key or its clones makes one refresh. Clones share one cache, separately created keys do not, and the lock is not held during the signBlob request.",
  ["schedules"], "all interleavings of concurrent operations on a key and its clones",
  "No test runs two operations concurrently.",
  [BT], [("one guard spans check and store", BT), ("Arc-shared cache", BT)], state=[("cache", "account, token and expiry", BT)], observe=["SigningKey::bound_token"])
p("C32", "No HTTP response is used before its status is checked",
  "For each of the account, token and signBlob requests, a response body is used as a result only if the status is a success status. Any other status gives an error that carries the status code and body of that response.",
  ["fault_sequences", "inputs"], "all statuses of all three responses",
  "One 400 on the first request.",
  [BT], [("status checks", BT)], observe=["SigningKey::bound_token"])
p("C33", "Metadata requests have the fixed form the metadata server needs",
  "Account and token are obtained by GET requests to http://HOST/computeMetadata/v1/instance/service-accounts/default/email and .../token, each with the header Metadata-Flavor: Google. HOST is the value of GCE_METADATA_HOST when the key was created, or metadata.google.internal if unset; no such request is addressed to another host.",
  ["configurations", "histories"], "all values of the variable, changed at any time",
  "The mock server ignores headers; the default host is never exercised.",
  [BT], [("request construction", BT), ("base url", BT)], observe=["SigningKey::bound_token"])
p("C34", "signBlob requests sign exactly the message as the bound account",
  "The signBlob request is a POST to https://iamcredentials.googleapis.com/v1/projects/-/serviceAccounts/ACCOUNT:signBlob with a JSON body whose payload is the standard base64 of exactly the message, the Content-Type application/json and the bearer token fetched together with ACCOUNT. The signature is the standard base64 decoding of the response's signedBlob, unchanged; anything undecodable is an error.",
  ["inputs"], "all messages, accounts, tokens and responses",
  "No test reaches signBlob: the host is not configurable.",
  [BT], [("sign", BT)], observe=["SigningKey::bound_token"])
p("C35", "Public operations never panic on any input or response",
  "No public function of the crate panics, overflows or aborts, whatever its arguments, the key kind, the environment, or the responses of the metadata and IAM servers; unsupported combinations and oversized inputs are reported as errors.",
  ["inputs", "configurations", "fault_sequences"], "all arguments, key kinds and responses",
  "Panics hide on inputs that tests do not sample: unsupported key kinds, huge values, hostile responses.",
  [U, F, K, KI, BT, PU, CR, UT], [("Result-typed errors", U)], observe=["all public operations"])
p("C36", "A result is returned only if every step succeeded",
  "A URL, form or key is returned only if every fallible step that ran on the way succeeded; each failing step makes the operation return an error. No failure is ignored, replaced by a default value or retried with different data. (A cached token that cannot be used counts as absent, not as a failure.)",
  ["inputs", "fault_sequences"], "every fallible step at every position",
  "Error paths are tested at three points.",
  [U, F, K, KI, BT, PU], [("error propagation", U)], observe=["all public operations"])
p("C37", "Futures and keys can move between threads",
  "The futures of signing a URL and building a form are Send, and keys, options and forms are Send and Sync, so they can be spawned on a multi-threaded runtime.",
  ["programs", "schedules"], "all programs using the crate",
  "The async tests run on a single-threaded runtime that does not need Send; only one inner type is asserted.",
  [U, F, K, BT], [("auto traits", BT)], observe=["type system"])
p("C38", "Async operations never block the thread",
  "Signing a URL and building a form perform no blocking file or network I/O, sleep, thread join or blocking lock wait on the executor thread; all waiting is asynchronous.",
  ["schedules", "programs"], "all call paths from the async operations",
  "Blocking is invisible to functional tests.",
  [U, F, BT, KI], [("async client and async mutex", BT)], observe=["build_signed_url", "HtmlFormDataBuilder::build"])
p("C39", "Credential scope pairs only matching service and request type",
  "A credential scope pairs the Cloud Storage service only with the Google request type and the S3 service only with the AWS one; the two mixed pairings are errors. Each service and request type prints as its fixed protocol name.",
  ["inputs"], "all pairs",
  "Enumerated once by a unit test against the current code; the test pins validity but not that construction keeps the parts.",
  [CS, "src/private/service.rs", "src/private/request_type.rs"], [("pair match", CS)], observe=["build_signed_url", "HtmlFormDataBuilder::build"])
p("C40", "Google accepts every signature produced",
  "Cloud Storage accepts each signed URL and signed form within its lifetime when used with the method, headers and fields it was signed for, and refuses it otherwise.",
  ["inputs", "configurations"], "all signed outputs",
  "The tests that try this are ignored because they need the live service.",
  [U, F], [("end to end", U)], observe=["Cloud Storage"])
p("C41", "Signing cost is bounded by input size",
  "The time and memory for signing grow at most in proportion to n log n of the input size, and waiting for a hung metadata or IAM server ends.",
  ["inputs", "fault_sequences"], "all inputs and server behaviours",
  "No performance or hang test exists.",
  [BT, CR], [("client without explicit timeout", BT)], observe=["all public operations"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
