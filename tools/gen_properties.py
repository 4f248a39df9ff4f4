"""Writes /verif/properties.jsonl (kept in a script so that it is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Policy decisions follow three-valued AND / OR / NOT logic",
     """Evaluating a policy combines its conditions with strong Kleene logic: NOT swaps TRUE and FALSE and keeps UNDEF, AND is
     FALSE if either side is FALSE and otherwise UNDEF if either side is UNDEF, OR is TRUE if either side is TRUE and otherwise
     UNDEF if either side is UNDEF; the constants TRUE, FALSE and UNDEF and boolean attributes stand for their own value wherever a
     condition may stand, including as the whole policy. Evaluation returns exactly TRUE, FALSE or UNDEF, and only TRUE counts as true
     when the result is used as a truth value. A non-boolean attribute used as a condition is reported as an interpreter error and
     never turns into a decision.""",
     ["inputs", "programs"],
     "every boolean combination of conditions (nested, negated, parenthesised) and every value of the attributes in it",
     """The tests evaluate eleven fixed policies against one fixed attribute assignment; FALSE/UNDEF constants, negated undefined conditions and
     non-boolean conditions are never evaluated, and the number of (tree, truth assignment) pairs is exponential.""",
     ["hgpl/ast.py", "hgpl/interpreting.py"],
     [("ASTResult.__and__/__or__/__not__/__bool__", "hgpl/ast.py"), ("Interpreter._evaluate_not_node/_evaluate_bool_op_node/_evaluate_node", "hgpl/interpreting.py")],
     ["Interpreter(ast).evaluate(symbols)", "bool(result)"])

prop("C02", "Comparison operators compare numbers, strings and NULL exactly",
     """For two numbers (integer or float constants or attributes, in either position) the operators =, !=, <, >, <= and >= give exactly the
     mathematical comparison of their values; for two strings = and != compare character by character, case-sensitively; NULL = NULL is TRUE.
     != always gives the negation of =. Operands of different kinds (number against string, NULL against anything else, text under <, >, <=, >=)
     give UNDEF when at least one of them is a constant, with a warning, instead of TRUE or FALSE.""",
     ["inputs"],
     "all integer and (finite) float values and all string values, as constants or as attribute values, for every operator and operand order",
     """The tests compare one pair of values per operator; boundary values (equal operands, 0, negative numbers, the empty string, int against float,
     values beyond 32 bits) are not sampled.""",
     ["hgpl/interpreting.py", "hgpl/symbols.py"],
     [("Interpreter._eq_op/_neq_op/_gt_op/_lt_op/_gte_op/_lte_op", "hgpl/interpreting.py"), ("Symbol.check_val_type", "hgpl/symbols.py")],
     ["Interpreter(ast).evaluate(symbols)", "Interpreter.get_warnings()"])

prop("C03", "IN, SUBSET and set equality follow set semantics",
     """With a set constant or set attribute on the right, `x IN S` is TRUE exactly when the scalar x equals some element of S, and `A IN S` with a set
     attribute A is TRUE exactly when A and S share an element; `A SUBSET B` is TRUE exactly when every element of A is in B; `A = B` between sets is TRUE
     exactly when they have the same elements, and != is its negation. The outcome does not depend on element order, on repeated elements, on
     whether the attribute value is held as a list or as a set, or on which side is a constant; a scalar attribute counts as a
     one-element set where the other side is a set or another attribute. A set compared with a constant that is not a set gives UNDEF, and so do IN with a single constant on the right, IN between a constant and a scalar attribute, and SUBSET with a single constant.""",
     ["inputs"],
     "all sets and lists of numbers and strings (NULL too in set constants), as constants or attributes, on either side of each operator",
     """The tests use four fixed sets; empty sets, disjoint/overlapping/equal sets, duplicates, lists instead of sets and sets holding 0, \"\" or NULL
     are never evaluated.""",
     ["hgpl/interpreting.py", "hgpl/ast.py"],
     [("Interpreter._in_op/_subset_op/_eq_op/_symbol_to_val/_evaluate_set_node", "hgpl/interpreting.py"), ("ASTNullVal", "hgpl/ast.py")],
     ["Interpreter(ast).evaluate(symbols)"])

prop("C04", "Missing, unset or wrongly typed attributes never decide a policy",
     """A condition on an attribute that is not in the symbol table, has no value, or whose value does not match its declared type (or that has no declared type) evaluates to UNDEF
     (whatever the operator and the other operand) and leaves at least one warning, never to TRUE or FALSE and never to an unreported error.
     Consequently a policy that evaluates to TRUE (or FALSE) while some attributes are missing evaluates to the same result for every value those
     attributes could take with their declared types.""",
     ["inputs", "programs"],
     "every policy, every set of missing/unset/mistyped attributes and every completion of it",
     """One test evaluates one policy with one missing attribute; unset values, mistyped values and the comparison between a partial and a completed
     assignment (a relation between two runs) are not tested.""",
     ["hgpl/interpreting.py", "hgpl/symbols.py"],
     [("Interpreter._evaluate_att_node / UNDEF short cut in _evaluate_op_node", "hgpl/interpreting.py"), ("Symbol.check_val_type, Symbol.value", "hgpl/symbols.py")],
     ["Interpreter(ast).evaluate(symbols)", "Interpreter.get_warnings()"])

prop("C05", "A policy evaluation depends only on the policy and the attributes given",
     """Evaluating the same policy object again, with the same or another interpreter, after any number of earlier evaluations with other
     attribute values, gives exactly the result and the warnings that a freshly parsed policy gives for those attribute values. The same
     holds for an evaluation that is given no attributes. Evaluation does not change the attribute values it was given, and the lists of warnings handed
     out after it are the caller's own: later evaluations do not change them.""",
     ["histories"],
     "every policy and every sequence of evaluations with different attribute assignments",
     "Every test parses a fresh policy and evaluates it once, so state carried from one evaluation to the next is never observed.",
     ["hgpl/interpreting.py", "hgpl/ast.py"],
     [("Interpreter._evaluate_node (results cached on the nodes), Interpreter._warnings", "hgpl/interpreting.py")],
     ["Interpreter(ast).evaluate(symbols) repeated"],
     [{"name": "node results", "meaning": "ASTNode.result of every node, kept across evaluations", "where": "hgpl/ast.py"}])

prop("C06", "Lexing is total, faithful and longest-match",
     """For every policy text the lexer either produces the token sequence of the HGPLv2 lexical grammar, framed by START and END, or raises LexerError; no other
     exception escapes and no character is silently skipped except whitespace between tokens. Every token carries the position of its first character
     and its exact value: the number written (longest match, optional minus sign directly before a digit, at most one '.', followed by a digit), the string between the quotes
     unchanged, the operator or the upper-cased keyword, the attribute name as written with the type of its prefix.""",
     ["inputs"],
     "every text",
     """The tests lex a fixed list of texts; the input space of texts is unbounded and the interesting ones (a token cut off by the end of the text, operators without spaces,
     non-ASCII letters and digits) are rare.""",
     ["hgpl/lexing.py"],
     [("Lexer.next, _number, _string, _id, _whitespace, _advance, _peek", "hgpl/lexing.py")],
     ["Lexer(text).tokenize()/toke_list()/att_list()"])

prop("C07", "The parser accepts exactly the HGPL grammar and builds the tree it prescribes",
     """A token sequence is parsed if and only if the HGPL grammar as implemented (HGPLv2 without boolean constants as comparison operands) derives it, and the tree returned is the one the
     grammar prescribes: NOT binds tighter than AND, AND tighter than OR, both associate to the left, parentheses override, comparison operands
     and set elements keep their order, and every leaf and operator keeps its token. Every other token sequence produced by the lexer is rejected with ParserError, and no other exception escapes.""",
     ["inputs", "programs"],
     "every token sequence framed by START and END",
     """The tests parse a fixed list of policies and a few malformed ones; acceptance and shape for all token sequences cannot be sampled, and truncated policies are barely covered.""",
     ["hgpl/parsing.py", "hgpl/ast.py"],
     [("Parser._policy_rule/_term_rule/_exp_rule/_var_rule/_set_rule/_eat/_peek", "hgpl/parsing.py")],
     ["Parser(tokens).parse()"])

prop("C08", "Letter case and whitespace do not change what a policy means",
     """Changing the letter case of keywords, operators written as words, constants TRUE/FALSE/UNDEF/NULL, attribute prefixes or attribute names, or the amount or kind of
     whitespace between tokens, does not change whether a policy is accepted nor what it evaluates to. Letter case and spaces inside string constants
     remain significant.""",
     ["inputs", "programs"],
     "every policy, every re-casing of its keywords and attribute names and every re-spacing between its tokens",
     "The grammar's case and whitespace rules are a relation between exponentially many spellings of the same policy; tests sample a few lower-case keywords.",
     ["hgpl/lexing.py", "hgpl/parsing.py", "hgpl/symbols.py", "hgpl/interpreting.py"],
     [("Lexer.next (prefix.lower()), _whitespace", "hgpl/lexing.py"), ("SymbolTable.define/lookup", "hgpl/symbols.py")],
     ["Lexer -> Parser -> Interpreter.evaluate"])

prop("C09", "Encoding a policy tree and decoding it gives back the same policy",
     """Decoding the binary or base64 encoding of a policy tree yields a tree with the same shape, node kinds, tokens (type, position, value) and constants, which therefore evaluates
     exactly like the original; this holds regardless of how many other policies the process has built before. A tree that does not fit the format
     (an integer outside 32 bits, a position or size beyond 16 bits) is refused with an exception rather than stored altered.""",
     ["inputs", "programs", "histories"],
     "every policy tree: all constants (integers, floats, strings including empty and non-ASCII ones), attribute names, sets, shapes; every number of previously created nodes",
     "The tests round-trip nine policies holding only small integers and ASCII strings; no float, empty string, NULL, boolean constant, non-ASCII name or long-running process.",
     ["hgpl/ast.py"],
     [("ASTEncoder.encode/_encode_node/decode", "hgpl/ast.py"), ("ASTNode._last_id", "hgpl/ast.py")],
     ["ASTEncoder.decode(ASTEncoder.encode(tree))"])

prop("C10", "The type checker reports exactly the ill-typed comparisons",
     """Checking a policy reports one error for every comparison between operand kinds that the operator does not allow (a string or NULL constant under <, >, <=, >=, or a set constant there unless the other side is an attribute; NULL,
     string or set constants equated with a constant of another kind; a set constant left of IN, or a NULL, string or numeric constant right of IN; anything but a set constant or an
     attribute under SUBSET), one warning for every comparison (=, !=, <, >, <=, >=) that uses an attribute with a type other than the one it was earlier compared with, directly or through an attribute of already known type (INT and FLOAT
     count as one; NULL differs from every known type but is itself not remembered as one), and nothing else. The overall result is PASS, WARN or ERROR accordingly, the inferred attribute types are those first compared with,
     and check(level) raises exactly when some issue has at least that level.""",
     ["inputs", "programs"],
     "every operator, every pair of operand kinds, every order of comparisons on shared attributes",
     "Tests list many constant pairs but few attribute chains; the interaction between conditions that share attributes is explicitly marked as untested.",
     ["hgpl/semantics.py", "hgpl/symbols.py"],
     [("TypeChecker._num_check/_eq_check/_in_check/_subset_check/_att_check/get_result/check", "hgpl/semantics.py"), ("SymbolTable.switch_type", "hgpl/symbols.py")],
     ["TypeChecker(ast).check()", "get_errors()/get_warnings()/get_result()/get_symbol_table()"])

prop("C11", "Attribute names resolve case-insensitively and only within their own namespace",
     """A symbol table returns for a qualified name (user., object., env., admin., connect. plus attribute name, in any letter case) exactly the symbol first defined under that
     name, with the value and type last set for it, and nothing if there is none; attributes of different namespaces never answer for each other, and a second definition of
     the same name is refused without changing the first. A table built from per-namespace or mixed attribute dictionaries contains exactly those
     attributes with those values, typed as declared, and booleans become TRUE/FALSE decisions; resetting a builder forgets the values it was given, changes neither the tables already built nor the caller's dictionaries, and it can then be loaded again. Printing a table gives, in order of definition, one line per attribute with its name, type, value and namespace.""",
     ["histories", "inputs"],
     "every sequence of define, set value, switch type and lookup operations over every choice of names, namespaces and letter case",
     "There is no test of the symbol table at all (test_symbols.py is empty); operation histories and name collisions are unbounded.",
     ["hgpl/symbols.py"],
     [("SymbolTable.define/lookup*/set_value/switch_type/exists", "hgpl/symbols.py"), ("SymbolTableBuilder.build/load_mixed_att_val_dict", "hgpl/symbols.py"), ("Symbol.value setter", "hgpl/symbols.py")],
     ["SymbolTable", "SymbolTableBuilder.build()", "Interpreter.evaluate"])

prop("C12", "Warnings stop an evaluation exactly at the requested level",
     """An evaluation that met at least one warning raises an interpreter warning when called with a level at or below WARN and otherwise returns its result; an evaluation
     without warnings, or one called without a level or with a level above WARN, never raises because of warnings. get_warnings() lists the warnings of the evaluation, each naming
     the rule it comes from.""",
     ["inputs", "configurations"],
     "every warning level (including none given) and every policy/attribute combination",
     "All tests evaluate with level ERROR; the default level and the levels WARN and below are never used.",
     ["hgpl/interpreting.py", "hgpl/errors.py"],
     [("Interpreter.evaluate/_warn/get_warnings", "hgpl/interpreting.py"), ("ErrorType ordering", "hgpl/errors.py")],
     ["Interpreter(ast).evaluate(symbols, level)"])

prop("C13", "Rejections point at the offending place in the policy",
     """Every LexerError or ParserError raised for a policy text carries that text and a position between 0 and its length (a ParserError the position of the token it
     names), and its excerpt is exactly the part of the text from at most n characters before to at most n characters after that position, clipped to the text; the text of the error is its message followed by that position and the excerpt for n = 10.""",
     ["inputs"],
     "every rejected text and every excerpt length n",
     "Positions are compared for a fixed list of malformed policies and the excerpt never; off-by-one clipping shows only near the ends of the text.",
     ["hgpl/errors.py", "hgpl/lexing.py", "hgpl/parsing.py"],
     [("HGPLError.near", "hgpl/errors.py"), ("Lexer raise sites", "hgpl/lexing.py"), ("Parser._eat", "hgpl/parsing.py")],
     ["LexerError/ParserError: pos, policy_text, near()"])

prop("C14", "Every certificate section survives encoding and consumes only its own bytes",
     """For each certificate section (information, issuer, holder, attribute, revocation rules, delegation rules, extension, signature), decoding its encoding followed by any further bytes
     yields a section with every field equal to the original (an empty optional text or byte field counts as absent) and leaves exactly the further bytes. A field that does not fit its
     slot (a text or byte field over 65535 encoded bytes, a number out of range) makes encoding raise instead of storing altered data.""",
     ["inputs"],
     "all field values: every text (any Unicode), byte string and number, present or absent, of every length, and every following byte string",
     "Tests round-trip a handful of ASCII values of moderate length; non-ASCII text, empty fields, maximal lengths and out-of-range values are not covered.",
     ["hgaa/attcert.py"],
     [("ACInformation/ACIssuer/ACHolder/ACAttribute/ACRevocationRules/ACDelegationRules/ACExtensions/ACSignature .encode/.decode", "hgaa/attcert.py")],
     ["X.decode(bytearray(X(...).encode() + rest))"])

prop("C15", "A certificate survives export and import in every supported format",
     """Exporting a certificate as BYTES, BASE64 or BASE64FULL and importing it back in that format yields a certificate with all fields, attributes and extensions (in order), rules and signature equal to the
     original, comparing equal to it; absent delegation rules, empty attribute or extension lists and a missing signature come back as absent/empty. Formats without an importer (TEXT, XML) are refused with an
     exception on import, and XML on export.""",
     ["inputs", "configurations"],
     "every certificate (any number of attributes and extensions, each optional part present or absent, signed or not) and every format",
     "Tests export one fully populated certificate per format; combinations of absent parts and arbitrary contents are not sampled.",
     ["hgaa/attcert.py"],
     [("AttributeCertificate.export_ac/import_ac/encode/decode/_encode_body/_decode_body/__eq__", "hgaa/attcert.py")],
     ["AttributeCertificate.import_ac(ac.export_ac(format), format)"])

prop("C16", "Truncated certificates and certificates with trailing bytes are refused",
     """Decoding the encoding of any certificate cut short at any point, or followed by at least one further byte, raises an exception; no certificate object is returned for it.""",
     ["inputs", "crash_points"],
     "every certificate and every cut point or appended non-empty byte string",
     "No test decodes a truncated or extended certificate; the cut points of a certificate number in the thousands.",
     ["hgaa/attcert.py"],
     [("AttributeCertificate.decode (extra bytes), struct.unpack length checks, ACSignature.decode", "hgaa/attcert.py")],
     ["AttributeCertificate.decode(bytes)"])

prop("C17", "A signature verifies only for exactly the certificate content that was signed",
     """A certificate signed with a key verifies when its issuer carries the matching public key and nothing was changed since; if any signed field (issuer, holder, information, any attribute, revocation or
     delegation rules, extensions, their number or order) has a different value, if it was signed with another key, or if the signature, its algorithm name, the issuer's key or key algorithm is missing, verification gives False, and importing with verification
     raises instead of returning the certificate. Importing with verification returns a certificate only when verification succeeds.""",
     ["inputs"],
     "every certificate content, every single-field change and every key pair (signature scheme idealised: only the holder of the key can sign, hashing is collision-free)",
     "Tests change eight fixed fields to one other value each; the remaining fields, and values that could collide in the encoding, are not covered.",
     ["hgaa/attcert.py"],
     [("AttributeCertificate.sign/verify_signature/_encode_body/decode(verify)", "hgaa/attcert.py")],
     ["ac.verify_signature()", "AttributeCertificate.import_ac(..., verify=True)"])

prop("C18", "A certificate is valid strictly between its validity bounds",
     """Checking a certificate's time accepts exactly the instants strictly after its valid-after time and strictly before its valid-before time, using the current time when none is given.
     Revocation rules created without a start are valid after the current second, those created without an end until one day after the current second, and information created without a date is issued at the current second.""",
     ["inputs", "schedules"],
     "every pair of bounds, every instant, every clock reading",
     "Tests use the actual clock and one offset in each direction; the boundary seconds and inverted windows are not sampled.",
     ["hgaa/attcert.py"],
     [("AttributeCertificate.verify_time", "hgaa/attcert.py"), ("ACRevocationRules.__init__, ACInformation.__init__", "hgaa/attcert.py")],
     ["ac.verify_time(now)"])

prop("C19", "Certificates are issued only to users who present their own password",
     """The attribute authority returns (and stores) a certificate only if the request uses username/password credentials, a user with that name (case-insensitively) exists and the password, with the configured pepper, matches that user's own
     stored hash. In every other case it raises a client fault, writes no certificate, and the fault for an unknown user is the same as the one for a wrong password; if what is stored for the user is not a password hash at all, the request fails and there is no certificate.""",
     ["inputs", "configurations"],
     "every credential type, user name, password and user database",
     "The services have no automated test at all here (their framework is not installable offline), and the combinations of users, hashes and credentials are unbounded.",
     ["hgaa/services/aauth.py", "hgaa/schema/aauth.py"],
     [("AttributeAuthority.attribute_request (credential type, user lookup, bcrypt.checkpw)", "hgaa/services/aauth.py")],
     ["AttributeAuthority.attribute_request(...)", "certificate directory"])

prop("C20", "Certificates carry only the requested attributes assigned to their user",
     """An issued certificate contains, besides connection attributes, exactly the requested attributes of the authenticated user (all assigned ones when the request names none, empty entries and '*' not counting), each once, with the identifier, name, type and
     value stored for that user, an unset value staying absent. A request naming an identifier or name not assigned to that user is refused with a client fault and no certificate; attributes of other users never appear.""",
     ["inputs"],
     "every assignment of attributes to users and every request by identifier and by name",
     "No test runs the attribute authority; subsets, overlaps between identifier and name requests, and multi-user databases are never exercised.",
     ["hgaa/services/aauth.py", "hgaa/schema/aauth.py"],
     [("AttributeAuthority.attribute_request (attribute selection), _make_ac", "hgaa/services/aauth.py")],
     ["the issued certificate's attribute set"])

prop("C21", "Issued certificates bind requester key, authority and configured lifetime",
     """Every certificate the authority issues decodes, verifies under the authority's own key, names the authority (configured identifier, name, URL, public key) as issuer and the authenticated user and the presented public key and key algorithm as holder, carries the supported
     certificate version and a serial of at most 160 bits, and is valid from its issue time for exactly the configured number of seconds. The certificate returned is the one stored.""",
     ["inputs", "configurations", "schedules"],
     "every request, clock reading, configured lifetime and random serial",
     "No test runs the attribute authority.",
     ["hgaa/services/aauth.py", "hgaa/attcert.py"],
     [("AttributeAuthority._make_ac", "hgaa/services/aauth.py"), ("AttributeCertificate.export_ac", "hgaa/attcert.py")],
     ["AttributeAuthority.attribute_request(...) -> certificate bytes"])

prop("C22", "Connection attributes describe the actual connection, one identifier each",
     """The connection attributes placed in an issued certificate state the peer address (and for IPv4 its four octets in order, for IPv6 its eight 16-bit groups in order, also when written in compressed form), the IP version, the credential type, the presented key and its size and algorithm, the connection time and its GMT
     calendar fields, the authority's identity and versions, and the certificate's serial and lifetime, each with its exact value. No two attributes in the connection attribute set share an identifier, and any client address form that the server can report leads to a certificate.""",
     ["inputs", "schedules"],
     "every peer address, key, time and authority configuration",
     "No test runs the attribute authority.",
     ["hgaa/services/aauth.py"],
     [("AttributeAuthority._make_con_att_set", "hgaa/services/aauth.py")],
     ["the issued certificate's attribute set"])

prop("C23", "Sessions start only from valid certificates of trusted authorities",
     """The policy authority starts a session only if at least one certificate is presented and every presented certificate has the supported version and format, decodes completely, carries a signature that verifies
     under the public key registered for its issuer, comes from an issuer registered with a positive trust level, and is within its validity period at that moment. Otherwise it raises a client fault and neither session nor certificate is
     stored; a request meeting these conditions is not refused (unless a serial is reused for different content).""",
     ["inputs", "configurations", "schedules"],
     "every certificate set (contents, signing key, claimed issuer, encoding format, version), every set of registered authorities and every clock reading",
     "No test runs the policy authority; an adversary's choice of certificates is unbounded.",
     ["hgaa/services/pauth.py", "hgaa/attcert.py"],
     [("PolicyAuthority.start_session, _check_cert", "hgaa/services/pauth.py")],
     ["PolicyAuthority.start_session(...)", "session/certificate tables"])

prop("C24", "Sessions never outlive their certificates or one day and record both",
     """A started session begins at the current second and ends at the earlier of one day later and the earliest expiry of its certificates; the stored session has the returned identifier, start and end, the latest issue time and earliest expiry of its certificates,
     the requesting service and its address. Each distinct presented certificate is stored under its serial, unaltered, with its own format, version, expiry and content hash, and linked to exactly this session.""",
     ["inputs", "schedules"],
     "every certificate set and clock reading",
     "No test runs the policy authority; minimum/maximum over several certificates with arbitrary dates cannot be sampled exhaustively.",
     ["hgaa/services/pauth.py", "hgaa/schema/pauth.py"],
     [("PolicyAuthority.start_session", "hgaa/services/pauth.py")],
     ["SessionReturn", "session/certificate/assignment tables"])

prop("C25", "A certificate serial cannot be reused for different content",
     """When a certificate is presented whose serial is already stored, the session is refused with a client fault if the stored certificate has different content, and accepted without storing a second copy if it is the
     same certificate; the stored certificate is never replaced.""",
     ["histories", "inputs"],
     "every sequence of two session starts with arbitrary certificates",
     "No test runs the policy authority; the condition needs two requests in sequence.",
     ["hgaa/services/pauth.py"],
     [("PolicyAuthority.start_session (hash comparison)", "hgaa/services/pauth.py")],
     ["PolicyAuthority.start_session(...) twice", "certificate table"])

prop("C26", "Certificate equality is an equivalence that sees every difference",
     """Comparing certificates, or two sections of the same kind, never raises, every certificate equals itself and an identical copy, comparison is symmetric, and certificates or sections that differ in any field (including names, an attribute or extension added, removed or changed, and the
     signature) are unequal. An absent attribute list, extension list, delegation rule set or signature equals an empty one, and the order of attributes or extensions with distinct identifiers does not matter.""",
     ["inputs"],
     "every pair of certificates",
     "Tests compare a few fully populated certificates that differ in one chosen field.",
     ["hgaa/attcert.py"],
     [("AttributeCertificate.__eq__ and the __eq__ of every section", "hgaa/attcert.py")],
     ["ac1 == ac2"])

prop("C27", "Configuration values resolve from section to default to built-in",
     """A configuration lookup returns the value of the named section if the section exists and sets it, otherwise the value in the file's DEFAULT section, otherwise the built-in default for services or clients respectively, otherwise nothing;
     option and section names are case-insensitive for the caller, and service and client configurations never answer for each other.""",
     ["inputs", "configurations"],
     "every combination of sections and options being set or not, for services and clients",
     "There is no test of configuration lookup.",
     ["hgaa/config.py"],
     [("get_conf", "hgaa/config.py")],
     ["get_conf(name, service, section)"])

prop("C28", "Clients never pass off a failed call as a result",
     """The attribute authority client returns the service's result only for a response with status 200 that (for attribute requests) carries no fault, and raises otherwise; it sends exactly the credentials, attribute selection and public
     key (the supplied key, or the newly generated one it then keeps) that it was given. The policy authority client's information calls likewise return a result only for status 200, and session requests carry its own service identifier and the given certificates.""",
     ["inputs", "fault_sequences"],
     "every response status and body, every key and credential",
     "The client tests need a live server and are not run.",
     ["hgaa/clients/aauth.py", "hgaa/clients/pauth.py"],
     [("AttributeAuthorityClient.info/attribute_request", "hgaa/clients/aauth.py"), ("PolicyAuthorityClient.info/trusted_attribute_authorities/start_session", "hgaa/clients/pauth.py")],
     ["client return values and requests"])

prop("C29", "Authority listings report exactly what is registered",
     """The policy authority's list of trusted attribute authorities contains exactly one entry per registered authority with its registered name, identifier, URL, public key, key algorithm, key size and trust level; both authorities' information calls report their configured identity, the
     supported versions and, for the attribute authority, its own public key, key size, signature scheme and credential types.""",
     ["inputs", "configurations"],
     "every set of registered authorities and every configuration",
     "No test runs the services.",
     ["hgaa/services/pauth.py", "hgaa/services/aauth.py"],
     [("PolicyAuthority.trusted_attribute_authorities/info", "hgaa/services/pauth.py"), ("AttributeAuthority.info", "hgaa/services/aauth.py")],
     ["trusted_attribute_authorities()", "info()"])

prop("C30", "Policy evaluation requests without a valid session are refused",
     """The policy authority's evaluate request never yields a decision for a policy that does not parse or type-check, for an unknown or expired session, or for certificates that no longer pass verification: every such request ends in a fault.""",
     ["inputs", "histories"],
     "every request and database state",
     "No test runs the policy authority.",
     ["hgaa/services/pauth.py"],
     [("PolicyAuthority.evaluate", "hgaa/services/pauth.py")],
     ["PolicyAuthority.evaluate(...)"])

prop("C31", "Cryptographic primitives: signatures and password hashes cannot be forged",
     """Nobody without the authority's private key can produce a certificate that verifies, and nobody without the password can produce credentials that match a stored hash.""",
     ["inputs"],
     "every adversary",
     "A cryptographic assumption about RSA PKCS#1 v1.5, SHA-256 and bcrypt.",
     ["hgaa/attcert.py", "hgaa/services/aauth.py"],
     [("Crypto.Signature.pkcs1_15, bcrypt (third-party C code)", "hgaa/attcert.py")],
     ["verify_signature", "attribute_request"])

prop("C32", "Concurrent and failing attribute requests leave each other unaffected",
     """An attribute request is answered with exactly the certificate (holder, attributes, holder key, connection attributes) its own credentials and selection call for, and a refused one with a client fault, whatever other requests of the same or other users
     run while it is being processed or before the returned certificate is read, and whatever failed (database or file error, death of the request at any point) in an earlier request. No certificate is ever handed out that mixes data of two requests.""",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "every pair of requests, every point of interleaving, every failure point",
     "No test runs the attribute authority, let alone two requests at once or after a failure.",
     ["hgaa/services/aauth.py"],
     [("AttributeAuthority.attribute_request and its helpers", "hgaa/services/aauth.py")],
     ["attribute_request(...) of several clients"])

prop("C33", "A session start is recorded completely or not at all",
     """Whatever fails while the policy authority starts a session (database error at any query or commit, death at any point), the database afterwards holds either the complete session with all its certificates and links or nothing of it; a session is
     answered only if it is stored completely, a later attempt with the same certificates succeeds as if the failed one had not happened, and a session start running at any point of another one neither loses nor mixes up either's records.""",
     ["fault_sequences", "crash_points", "schedules", "histories"],
     "every failure and crash point, every interleaving point, every certificate set",
     "No test runs the policy authority or injects a failure.",
     ["hgaa/services/pauth.py", "hgaa/schema/pauth.py"],
     [("PolicyAuthority.start_session", "hgaa/services/pauth.py")],
     ["start_session(...)", "stored sessions, certificates and links"])

prop("C34", "An issued certificate starts sessions exactly where it is trusted, until expiry",
     """A certificate obtained from an attribute authority (directly or through its client) and presented unaltered to a policy authority (directly or through its client) starts a session there if and only if that policy authority has the issuing authority registered
     under its identifier with its public key and a positive trust level, and the certificate's configured lifetime has not passed; the session ends with the certificate. This holds for every lifetime, presentation time and attribute value, and for certificates of several authorities in one session.""",
     ["inputs", "configurations", "schedules"],
     "every configured lifetime, presentation time, attribute value, registered identifier, key and trust level",
     "No test lets the two services work together.",
     ["hgaa/services/aauth.py", "hgaa/services/pauth.py", "hgaa/attcert.py", "hgaa/clients/aauth.py", "hgaa/clients/pauth.py"],
     [("AttributeAuthority.attribute_request", "hgaa/services/aauth.py"), ("PolicyAuthority.start_session", "hgaa/services/pauth.py"), ("AttributeCertificate.export/import_ac/verify", "hgaa/attcert.py")],
     ["start_session(...) with certificates from attribute_request(...)"])

prop("C35", "From its text to the decision, a policy means what its words say",
     """A well-formed policy text whose attributes are given values of fitting types is accepted by lexer, parser and type checker and evaluates to the three-valued truth value of the text as written: comparisons, IN and SUBSET on the values, NOT binding tighter than AND, AND tighter than OR,
     parentheses overriding, undefined attributes giving UNDEF. The same result comes from a parser, from the parsed tree and from the encoded and decoded tree, with the symbol table built from the types the type checker inferred.""",
     ["inputs"],
     "every policy text, every attribute value",
     "Tests check each stage on samples, and never the whole way from text to decision over all values.",
     ["hgpl/lexing.py", "hgpl/parsing.py", "hgpl/semantics.py", "hgpl/ast.py", "hgpl/symbols.py", "hgpl/interpreting.py"],
     [("Interpreter.evaluate", "hgpl/interpreting.py"), ("Parser.parse", "hgpl/parsing.py"), ("Lexer", "hgpl/lexing.py")],
     ["evaluate(parser or tree)"])

prop("C36", "Administration tools fill exactly the intended database with the intended rows",
     """Populating a service's database adds exactly the given rows to the tables of that service in the database configured for it (or for its test section when asked), after removing exactly all rows of that service's tables if wiping is requested, in an order that foreign keys allow; rows of
     other services and other databases stay unchanged, a refused population without wiping adds nothing, and an unknown service is never wiped. Building creates all tables of the named services in their own databases and keeps existing rows; an unknown service or unsupported database is reported. Generated attributes are exactly those asked for.""",
     ["inputs", "configurations", "histories"],
     "every database content, set of rows, service, configuration and sequence of build and populate",
     "The tools have no tests.",
     ["hgaa/database.py", "hgaa/tools.py", "hgaa/schema/aauth.py", "hgaa/schema/pauth.py"],
     [("populate_db", "hgaa/database.py"), ("build_database, gen_atts, pop_and_gen, command line", "hgaa/tools.py")],
     ["database content after populate_db(...), build_database(...)"])

prop("C37", "Services connect to the configured database with the configured credentials",
     """A service's database connection goes to exactly the database its configuration names: driver, host, port and database name as configured (section, then default, then built-in), with exactly the configured user name and password whatever characters they contain and none made up when unset; SQLite
     databases use the file named after the database, an unsupported database type gives no connection. One service always gets the same engine, and services see each other's rows exactly when they are configured to share a database; the attribute authority and the policy authority each work on the database of their own section.""",
     ["inputs", "configurations"],
     "every user name, password, host, port, database name and type, set or unset in any section",
     "There is no test of the database module.",
     ["hgaa/database.py", "hgaa/config.py"],
     [("get_engine, get_session", "hgaa/database.py")],
     ["get_engine(name).url", "get_session(name)"])

prop("C38", "Keys and hashes made by the tools open only with their secret",
     """A signing key generated by the tools opens in the attribute authority with the passphrase it was made with and with no other and not without one, has the requested size, and certificates issued with it verify; without a passphrase no key is written and an existing key file stays usable. A password hash printed
     by the tools lets exactly that password authenticate at the service it was made for.""",
     ["inputs", "configurations"],
     "every passphrase, password, pepper and key size",
     "The tools have no tests.",
     ["hgaa/tools.py", "hgaa/services/aauth.py"],
     [("gen_aauth_key and the genkey and password commands", "hgaa/tools.py"), ("AttributeAuthority.__init__, attribute_request", "hgaa/services/aauth.py")],
     ["key file", "printed hash", "attribute_request(...)"])

prop("C39", "The text form of a certificate shows every field with its exact value",
     """The text form of an attribute certificate (str() and the TEXT export) shows, in order, every field that is present with exactly its value: information, issuer, holder, every attribute, revocation and delegation rules, every extension and the signature, binary fields in base64; absent optional fields and empty
     sets are left out and nothing else is shown. Exporting with signing first signs the certificate with the given key and algorithm name, so the text shows a signature that verifies; without a key it is refused and the certificate stays as it was. Showing a certificate does not change it.""",
     ["inputs"],
     "every certificate, field value, key and algorithm name",
     "Tests compare the text of a few sample sections.",
     ["hgaa/attcert.py"],
     [("__str__ of AttributeCertificate and its sections, export_ac(TEXT)", "hgaa/attcert.py")],
     ["str(certificate)", "export_ac(ExportFormat.TEXT, ...)"])

prop("C40", "Passwords, passphrases and private keys stay out of logs and answers",
     """What the attribute authority, its client, the tools and the database module log, the faults they answer and the certificates they issue do not reveal secrets: with otherwise equal inputs and outcome, messages above debug level, faults and certificates are the same whatever the user's password, the pepper and
     the key passphrase are, messages of every level are the same whatever the database password and the key passphrase are, and no message of any level contains a password, pepper, passphrase or private key (debug messages may contain the password hash). A client sends its password only as its credentials and never a private key.""",
     ["inputs", "configurations"],
     "every pair of secrets, every request and configuration",
     "No test looks at log messages, and none compares two runs.",
     ["hgaa/services/aauth.py", "hgaa/clients/aauth.py", "hgaa/database.py", "hgaa/tools.py"],
     [("AttributeAuthority.__init__, attribute_request", "hgaa/services/aauth.py"), ("get_engine", "hgaa/database.py"), ("AttributeAuthorityClient.attribute_request", "hgaa/clients/aauth.py"), ("gen_aauth_key", "hgaa/tools.py")],
     ["log messages", "faults", "issued certificates", "calls of the client"])

prop("C41", "The server offers exactly the enabled services, at the configured address",
     """The server program offers exactly those of the attribute authority and the policy authority whose SERVICE_ENABLED setting (of their section, else the default one, else built in as true) reads 'true' in any letter case, each once and no other, and starts one server for them on exactly the host and port
     configured for it.""",
     ["inputs", "configurations"],
     "every combination and spelling of the settings, every host and port",
     "The server program has no test.",
     ["hgaa/handler.py", "hgaa/config.py", "hgaa/services/__init__.py"],
     [("handler", "hgaa/handler.py"), ("ServiceList", "hgaa/services/__init__.py")],
     ["services given to LadonWSGIApplication", "make_server(host, port, application)"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
