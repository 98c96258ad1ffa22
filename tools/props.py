NA = {}
TECH = {}
PROPS = []


def P(id, title, statement, over, text, why, files, *mech):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


P('C01', 'Verification accepts exactly the DSTU 4145 signatures',
  'Signature verification succeeds if and only if both halves are in [1, n-1], sP+rQ is a finite point, and r equals the digest-as-field-element times '
  'the x coordinate, cut to one bit less than the order; the digest is read little-endian, cut to the field width, and zero counts as one. '
  'A signature is accepted both as raw bytes and as a DER OCTET STRING, in the byte order of the key type, and any odd or too short one is refused; cutting the digest always ends. '
  'A missing key, curve or public point, or a curve over a prime field, is refused and never dereferenced.',
  ['inputs', 'configurations'], 'every digest, signature byte string, public key and standard curve; both key types, both signature encodings',
  'The tests verify a few fixed signatures; no sample of accepted ones shows that every other string is refused.',
  ['engine/sign.c', 'engine/pmeth.c'], ('verification equation', 'engine/sign.c:dstu_do_verify'), ('encoding and byte order', 'engine/pmeth.c:dstu_pkey_verify'))
P('C02', 'Every signature produced satisfies the DSTU 4145 signing equations',
  'A successful signing operation emits a DER OCTET STRING holding two equal halves s=(d*r+e) mod n and r=low bits of h*x(eP), both nonzero, padded to the '
  'byte length of the order and in the byte order of the key type, where e is a fresh uniform value below n for every signature. '
  'Cutting the digest to the field width always ends, and signing fails only when a step it depends on fails.',
  ['inputs', 'configurations'], 'every digest, private key, nonce and standard curve, both key types',
  'A signature that verifies with a matching bug on the verifying side, or a biased or reused nonce, passes every sampled test.',
  ['engine/sign.c', 'engine/pmeth.c'], ('signing equation and retry loops', 'engine/sign.c:dstu_do_sign'), ('encoding', 'engine/pmeth.c:dstu_pkey_sign'))
P('C03', 'Signing respects the caller\'s buffer and reports the exact length',
  'With no buffer, signing reports the exact size needed and does nothing else; with a buffer that is too small it fails, reports the needed size and writes '
  'nothing; with enough room it writes exactly the reported number of bytes. The reported size is exact for every curve.',
  ['inputs', 'configurations'], 'every buffer capacity around the needed size, every standard curve, both key types',
  'Tests always pass a large enough buffer on one or two curves.', ['engine/pmeth.c', 'engine/ameth.c'],
  ('size negotiation', 'engine/pmeth.c:dstu_pkey_sign'), ('signature size', 'engine/ameth.c'))
P('C04', 'Generated keys are uniform, complete and consistent',
  'Key generation draws the private key uniformly below the order, never zero, on the curve chosen for the context or the documented default curve, and sets the '
  'public key to minus the private key times the base point. The new key has the key type of the context and its own copy of any custom substitution table. '
  'Generation fails only when a step it depends on fails.',
  ['inputs', 'configurations'], 'every random draw, every curve and substitution table selected, both key types',
  'A biased or occasionally zero private key, or a table shared between key and context, passes every sampled round trip.',
  ['engine/pmeth.c', 'engine/sign.c', 'dstulib/key.c'], ('key generation', 'engine/pmeth.c:dstu_pkey_keygen'), ('key pair', 'dstulib/params.c:dstu_generate_key'),
  ('public key', 'dstulib/params.c:dstu_add_public_key'))
P('C05', 'Private key encoding round-trips and yields a matching public key',
  'Encoding a private key writes its value little-endian with the algorithm identifier of the key type; decoding gives back the same private key, curve, type and '
  'substitution table together with the public key that belongs to it. Decoding arbitrary key bytes reads them as a little-endian integer, and a key without usable '
  'parameters or of another algorithm is refused.',
  ['inputs', 'configurations'], 'every private key value and length, standard curve, key type, substitution table and input byte string',
  'Tests decode a handful of stored keys; leading zero bytes, unusual lengths and custom tables are not among them.',
  ['engine/ameth.c', 'dstulib/key.c'], ('encode', 'engine/ameth.c:dstu_asn1_priv_encode'), ('decode', 'engine/ameth.c:dstu_asn1_priv_decode'))
P('C06', 'Public key encoding round-trips through point compression',
  'Encoding a public key writes its x coordinate with the lowest bit replaced by the trace of y/x, in the byte order of the key type, and decoding gives back the same point, '
  'curve, type and substitution table. Decoding any byte string yields the point the standard\'s expansion rule prescribes, which lies on the curve, or is refused.',
  ['inputs', 'configurations'], 'every public point and every byte string, every standard curve, both key types',
  'The failing points of a compression error are an arbitrary subset of the curve; a sample of keys on one curve need not hit it.',
  ['dstulib/compress.c', 'engine/ameth.c'], ('compression', 'dstulib/compress.c:dstu_point_compress'), ('expansion', 'dstulib/compress.c:dstu_point_expand'),
  ('encode and decode', 'engine/ameth.c'))
P('C07', 'Domain parameters round-trip and malformed ones are refused',
  'Encoding domain parameters names a standard curve or writes an explicit trinomial or pentanomial curve as DSTU 4145 prescribes, and decoding gives back the same curve, base '
  'point, order and substitution table. A table whose length is not 64 bytes, a nonpositive exponent, a coefficient a other than 0 or 1, an unknown curve name and an unparsable '
  'structure are refused.',
  ['inputs', 'configurations'], 'every standard curve, explicit curves over several trinomial and pentanomial fields with arbitrary coefficient, base point and order; every parameter structure',
  'No test encodes an explicit curve; the encodings tests read are well formed.',
  ['dstulib/key.c', 'dstulib/asn1.c', 'engine/ameth.c'], ('encode', 'dstulib/key.c:asn1_from_key'), ('decode', 'dstulib/key.c:group_from_asn1, key_from_asn1'))
P('C08', 'Comparing and copying keys respects curve, table and public point',
  'Two keys\' parameters compare equal exactly when their curves and effective substitution tables (absent means default) are the same; public keys compare equal exactly when the '
  'points are the same; a key lacking a part never compares equal and never crashes the comparison. Copying parameters or an operation context gives the target the same type, curve '
  'and table in storage of its own and leaves the source alone.',
  ['inputs', 'configurations'], 'every pair of keys with or without curve, table, point or key object; every operation context',
  'Tests compare a key with its own copy; inequality, partial keys and shared storage need other inputs.',
  ['engine/ameth.c', 'engine/pmeth.c', 'dstulib/key.c'], ('comparison', 'engine/ameth.c:dstu_asn1_param_cmp, dstu_asn1_pub_cmp'),
  ('copy', 'engine/ameth.c:dstu_asn1_param_copy; dstulib/key.c:DSTU_KEY_CTX_copy'))
P('C09', 'Control settings are validated and take exactly their documented effect',
  'Setting a substitution table succeeds exactly for 64 bytes (128 hex digits, nonnegative, as text), setting a curve exactly for a supported curve, and selecting a digest exactly for the '
  'national digest; each stores a private copy, changes nothing else, and a refused setting changes nothing. Unknown commands fail. A signer structure receives the national digest and the '
  'key\'s own algorithm, and the national digest is reported as mandatory.',
  ['inputs', 'configurations'], 'every command number, length, argument and text; fresh and already configured contexts; both key types',
  'Tests set valid values only.',
  ['engine/pmeth.c', 'engine/ameth.c', 'dstulib/key.c'], ('controls', 'engine/pmeth.c:dstu_pkey_ctrl, dstu_pkey_ctrl_str'), ('signer algorithms', 'engine/ameth.c:dstu_asn1_pkey_ctrl'))
P('C10', 'The built-in curves are the ten sound curves of DSTU 4145',
  'Each standard curve name selects the published curve: an irreducible field polynomial of the published degree, a base point on the curve whose prime order annihilates it and matches the '
  'curve size with the cofactor the compression rule relies on, and no weak embedding. The curve identifier, its parameters and the encoding agree for all ten.',
  ['configurations'], 'all ten named curves and all of their constants', 'Tests use two of the curves; a wrong digit in another still signs and verifies with itself.',
  ['dstulib/params.c'], ('curve table', 'dstulib/params.c:dstu_curves'), ('group construction', 'dstulib/params.c:group_from_named_curve'))
P('C11', 'The digest is GOST 34.311 for every message, however it is fed',
  'For every message, and however it is split into updates including empty ones, the digest is the 32 bytes GOST 34.311 prescribes with the substitution table in force: '
  'blocks of 32 bytes, the last padded with zeros, an empty message counting as one zero block, then the full bit length, then the sum of all blocks modulo 2^256.',
  ['inputs', 'histories'], 'all message bytes; lengths and splittings around every block boundary; byte counts far beyond 32 bits',
  'Tests hash a few fixed strings in one piece; carries, boundaries, splittings and large lengths are never all sampled.',
  ['dstulib/gost/gosthash.c', 'engine/md.c'], ('step function', 'dstulib/gost/gosthash.c:hash_step'), ('buffering', 'dstulib/gost/gosthash.c:hash_block'), ('finishing', 'dstulib/gost/gosthash.c:finish_hash'))
P('C12', 'Digest contexts are independent and use the right substitution table',
  'A copied digest context continues the same message on its own: nothing done to either afterwards, including freeing it, affects the other. Initialising forgets everything the context held, '
  'and cleaning up wipes it. The digest uses the table of the signing key when that is a national key with a table, a table set by control, and otherwise the default one; a malformed control is '
  'refused and changes nothing.',
  ['histories', 'configurations'], 'copying at any point, all message bytes and all table contents, every kind of key attached',
  'Tests never copy a context mid-message with the original released, nor attach foreign or incomplete keys.',
  ['engine/md.c'], ('copy', 'engine/md.c:dstu_md_copy'), ('table choice', 'engine/md.c:dstu_md_init, dstu_md_ctrl'))
P('C13', 'The cipher is GOST 28147 CFB for every chunking and initialisation order',
  'Encryption and decryption are GOST 28147 in 64-bit CFB mode with the key, iv and table set last, for every splitting of the data into nonempty pieces, in place or not, and decryption undoes encryption. '
  'Key, iv and table may be set in any order and in separate calls; setting any of them restarts the stream from the initial iv, and a custom table stays in force until replaced. '
  'A malformed control is refused and changes nothing.',
  ['inputs', 'histories'], 'all keys, ivs, tables and data; splittings around every block boundary; every order of setting key, iv and table',
  'Tests encrypt one buffer in one call; partial blocks carried between calls, in-place operation and separate key and iv calls are not covered.',
  ['engine/cipher.c', 'dstulib/gost/gost89.c'], ('initialisation', 'engine/cipher.c:dstu_cipher_init, dstu_cipher_ctrl'), ('streaming', 'engine/cipher.c:dstu_cipher_do_cipher'))
P('C14', 'The block cipher library implements GOST 28147 and its inverse',
  'Block encryption and decryption, in ECB, CFB and MAC mode, are exactly GOST 28147 for every key, table and block, in place or not, whatever random mask protects the stored key; decryption inverts '
  'encryption, the key can be read back, the key set last counts, and destroying a context leaves nothing of the key.',
  ['inputs'], 'all keys, substitution tables, masks and blocks; several message lengths and MAC lengths',
  'A wrong table entry, round key or carry affects inputs no fixed vector need contain.',
  ['dstulib/gost/gost89.c'], ('rounds', 'dstulib/gost/gost89.c:gostcrypt, gostdecrypt'), ('key masking', 'dstulib/gost/gost89.c:gost_key'), ('MAC', 'dstulib/gost/gost89.c:gost_mac'))
P('C15', 'Substitution tables and cipher parameters survive every representation',
  'Packing and unpacking a substitution table are inverse and a table can be read back from a context. The ASN.1 parameters a cipher writes hold its initial iv and the table in use, whatever '
  'has been processed, and a cipher that reads them works with that iv and table whether the key is set before or after. Parameters of another type, length or inner structure are refused and change nothing.',
  ['inputs', 'histories'], 'all table and iv contents; parameters written before and after use; each kind of malformed parameters',
  'Tests use one table in one order of calls.',
  ['dstulib/params.c', 'engine/cipher.c'], ('table forms', 'dstulib/params.c:pack_sbox, unpack_sbox, dstu_get_sbox'),
  ('parameters', 'engine/cipher.c:dstu_cipher_set_asn1_parameters, dstu_cipher_get_asn1_parameters'))
P('C16', 'The random generator state is only touched under its lock',
  'Whatever sequence of generator operations threads perform, the shared generator state is read and written only while the one lock guarding it is held, also after cleanup and when '
  'creating or taking the lock, an allocation or the seeding fails. Every operation releases the lock and none asks the library for random bytes while holding it; when the lock cannot be had the operation fails.',
  ['schedules', 'fault_sequences'], 'every operation and sequence of them, every path, every single failure of a lock, allocation or seed source',
  'A race or a deadlock needs an interleaving or a failure that no test produces.',
  ['engine/rbg.c'], ('locking', 'engine/rbg.c:dstu_rbg_bytes, dstu_rbg_status, dstu_rbg_cleanup'), ('one-time setup', 'engine/rbg.c:do_rand_lock_init'))
P('C17', 'The random generator is the DSTU 4145 one, freshly seeded, and fails closed',
  'Every output byte is the one the DSTU 4145 generator yields from a fresh 40-byte seed of the system source and the clock, each call continuing the same stream whatever the split into requests; after cleanup a new seed '
  'is drawn. When seeding fails no bytes are reported as random, later requests try again, and neither the seed nor the state survives on the stack or after cleanup.',
  ['histories', 'fault_sequences'], 'all seeds and clock values; request lengths and sequences of requests, status queries and cleanups; each failure of the seed source',
  'Output of a random generator has no expected value a test could compare; repeated or unseeded output looks as random as any.',
  ['engine/rbg.c'], ('generation', 'engine/rbg.c:dstu_rbg_bytes, dstu_rbg_get_bit'), ('seeding', 'engine/rbg.c:dstu_rbg_init'))
P('C18', 'A failed step is never reported as success by any engine operation',
  'Whichever single library call or allocation fails inside key generation, signing, verification, encoding, decoding, printing, copying, controls, digest or cipher set-up or engine registration, the operation reports '
  'failure: it never returns success, a signature, a verdict, a key or a method that the failed step would have had to produce. An encoder may recover only if what it writes still means the same key.',
  ['fault_sequences'], 'every operation the engine registers, each single failing call or allocation on every path',
  'Tests run with working memory and a working library; no test makes the hundredth allocation fail.',
  ['engine/ameth.c', 'engine/pmeth.c', 'engine/dstu.c', 'dstulib/key.c', 'dstulib/params.c', 'dstulib/compress.c', 'engine/sign.c'],
  ('encoders and decoders', 'engine/ameth.c:dstu_asn1_priv_encode, dstu_asn1_pub_decode'), ('signing', 'engine/pmeth.c:dstu_pkey_sign'), ('registration', 'engine/dstu.c:dstu_bind'))
P('C19', 'Engine operations never corrupt or leak memory, also when a step fails',
  'In every operation of the engine, with complete, incomplete and empty keys and whichever single call or allocation fails, nothing invalid is dereferenced or freed and nothing is leaked. '
  'Keys, parameters and contexts that are created, set up repeatedly, copied and released leave nothing allocated, and each object is released exactly once.',
  ['fault_sequences', 'histories'], 'every operation the engine registers and typical lifetimes of contexts and keys, each single failing call or allocation on every path',
  'Leaks and crashes on error paths do not show in tests that only take the success path.',
  ['engine/ameth.c', 'engine/pmeth.c', 'engine/dstu.c', 'engine/md.c', 'engine/cipher.c', 'dstulib/key.c', 'dstulib/params.c', 'dstulib/compress.c', 'engine/sign.c'],
  ('key objects', 'dstulib/key.c:DSTU_KEY_set, DSTU_KEY_free, DSTU_KEY_CTX_copy'), ('error paths', 'engine/ameth.c:dstu_asn1_priv_encode'))
P('C20', 'A key store hands out exactly what was put into it, in order',
  'A key store holds the keys and certificates put into it at the positions they were put; a new store holds none, and an index beyond the reported number gives nothing. Appending one store to another '
  'moves all its entries behind the existing ones, in order. Releasing the stores, in any order, releases every entry exactly once, and releasing none is harmless.',
  ['histories'], 'stores of zero to three keys and certificates, filled or not, all pairs appended; indices at, just above and far above the number of entries',
  'An entry released twice or lost on appending shows only as a later crash or leak, which the tests do not look for.',
  ['keylib/keystore.c'], ('container', 'keylib/keystore.c:KeyStoreAppend, KeyStoreFree'))
P('C21', 'A Key-6 container opens to the key its password protects',
  'The data and tail of a Key-6 container are decrypted with GOST 28147 under the key obtained by hashing the password 10000 times with GOST 34.311, both with the default table, and the single key in the '
  'store is the one parsed from all decrypted blocks. A container of another content type or structure is refused, and a failed load leaves no store behind.',
  ['inputs'], 'all container and password contents for a range of data, tail and password lengths, including unaligned and empty ones',
  'The tests open one container with one password and one tail length.',
  ['keylib/key6.c', 'dstulib/gost/gost89.c'], ('key derivation', 'keylib/key6.c:pkdf'), ('decryption', 'keylib/key6.c:decryptKey6'), ('structure checks', 'keylib/key6.c:parseKey6'))
P('C22', 'Loading PKCS#8 data yields its key and the one in its attributes',
  'The first key is the one in the PKCS#8 structure. When the attributes describe a DSTU 4145 curve and hold a key, a second little-endian key appears with exactly that curve, base point and order, the bit-reversed '
  'string as private value and the matching public key; otherwise there is exactly one key. Attributes of any order, type or content never crash, leak or change the first key.',
  ['inputs'], 'all key contents and curve coefficients over several trinomial and pentanomial fields; attributes missing, reordered, of other types, empty and hostile',
  'The tests load stored files with one well formed attribute set.',
  ['keylib/utils.c', 'keylib/attrcurvespec_asn1.c'], ('attributes', 'keylib/utils.c:pkeyFromAttributes'), ('curve', 'keylib/utils.c:makeECGROUPFromSpec'), ('private value', 'keylib/utils.c:getPrivateKeyNum'))
P('C23', 'A JKS store opens only intact and under its passwords, entries in order',
  'A JKS or JCEKS store loads only when its keyed digest under the store password matches and the check value of every key matches under the key password; the keys are those obtained by decrypting each entry and '
  'the certificates those stored, in store order. A failed load leaves no store behind.',
  ['inputs'], 'all contents of stores of up to three entries, two keys and three certificates, with field lengths around 256; all passwords of fixed length',
  'A digest comparison that skips a byte or an entry accepts almost all tampered stores and every intact one.',
  ['keylib/jks.c'], ('integrity', 'keylib/jks.c:parseJKS, whiteHash'), ('key decryption', 'keylib/jks.c:fromKeyProtector'), ('entries', 'keylib/jks.c:parseEntry, parseCert'))
P('C24', 'Truncated and hostile JKS data is refused without touching other memory',
  'JKS data cut at any byte, with any length or count field larger than what follows, of another kind or version, with an unknown entry type or with a protected key too short for its salt and check value is refused, '
  'nothing outside the given bytes is read and nothing is leaked.',
  ['inputs'], 'every truncation of a two-entry store and hostile values of every length and count field in it, contents arbitrary',
  'Tests only read intact stores.', ['keylib/jks.c'], ('bounds', 'keylib/jks.c:available, parseKey, parseCert'))
P('C25', 'A PKCS#12 container loads completely and only under its password',
  'A PKCS#12 container loads only when its MAC verifies under the given password, which also opens its encrypted safes and shrouded keys. The store then holds every key and certificate in it, of plain and nested bags, in '
  'container order, other contents are skipped, and a part that cannot be read fails the whole load, releasing everything.',
  ['inputs'], 'containers of many shapes: several safes, plain, encrypted, empty, foreign and missing, bags of each kind, nested; contents arbitrary',
  'The tests open one container; nested bags, several safes and unreadable parts are not among them.',
  ['keylib/pkcs12.c'], ('integrity', 'keylib/pkcs12.c:parsePKCS12'), ('entries', 'keylib/pkcs12.c:countKeysCerts, fromSafes, fromBag'))
P('C26', 'Key store loading fails cleanly whichever step fails',
  'Whichever single allocation or library call fails while a key store is created, appended to or loaded from PKCS#12, JKS, Key-6 or PKCS#8 data, nothing invalid is dereferenced and nothing leaks. A load that fails '
  'leaves no handle behind, and one that succeeds has every entry, except that the optional key in PKCS#8 attributes may be missing.',
  ['fault_sequences'], 'each single failing call or allocation on every path of loading containers of several shapes',
  'Tests run with working memory and a working library.', ['keylib/keystore.c', 'keylib/utils.c', 'keylib/jks.c', 'keylib/key6.c', 'keylib/pkcs12.c'],
  ('container', 'keylib/keystore.c:KeyStoreNew, KeyStoreAppend'), ('attributes', 'keylib/utils.c:makePKey'), ('loading', 'keylib/jks.c:parseJKS'))
P('C27', 'Reading a key store from a file or stream parses exactly what was read',
  'The readers for files and streams hand every byte they can read, once and in order, to the parser of the format together with the caller\'s passwords, and report its result; an empty source is refused. '
  'The caller\'s file or stream stays open and everything else is released, also when an allocation fails.',
  ['inputs', 'fault_sequences'], 'sources delivering pieces of many sizes around the read buffer size; each single failing read, write or allocation',
  'The tests read small files in one piece.', ['keylib/key6.c', 'keylib/jks.c', 'keylib/pkcs12.c'], ('readers', 'keylib/jks.c:readJKS_bio'))
P('C28', 'The engine offers exactly its algorithms, alive for as long as it is loaded',
  'Binding registers the digest, the cipher, both key types, the random generator and the HMAC for password based key derivation, refuses another engine\'s id, and fails if any registration fails. Every listed algorithm is '
  'found as its own correctly described method and no other is. A method known by name or offered is usable at every point of any history of initialising, finishing, unloading and loading again, and unloading leaves nothing behind.',
  ['histories'], 'nine kinds of histories of sessions, queries, unloading and reloading; each single failing registration or allocation',
  'Tests load the engine once and never finish it.', ['engine/dstu.c', 'engine/md.c', 'engine/cipher.c', 'engine/err.c'], ('registration', 'engine/dstu.c:dstu_bind'),
  ('lifetime', 'engine/dstu.c:dstu_engine_finish, dstu_engine_destroy'), ('lookup', 'engine/dstu.c:dstu_digests, dstu_ciphers, dstu_pkey_meths, dstu_asn1_meths'))
P('C29', 'Refusing an unsuitable key or data is explained by the engine\'s own error',
  'Refusing a missing or incomplete key, a foreign algorithm, malformed parameters, a curve over another field, another digest or an unprepared context queues an error whose text names that reason, '
  'filed under a library number of the engine\'s own. The texts are registered exactly while the engine is loaded, again after each reload, and none refers to its memory once it is unloaded.',
  ['inputs', 'histories'], 'refusal situations of signing, verifying, generating, controls, decoding and encoding, for both key types; histories of loading, errors and unloading',
  'The tests print errors but never provoke one, and load the engine once.', ['engine/err.c', 'engine/pmeth.c', 'engine/ameth.c', 'engine/sign.c'],
  ('texts', 'engine/err.c:ERR_load_DSTU_strings, ERR_unload_DSTU_strings'), ('reporting', 'engine/err.c:ERR_DSTU_error'))
P('C30', 'Printing a key shows exactly the part asked for, and never the secret unasked',
  'Printing writes the curve, the public point or the private value of that very key to the given output at the given indentation. Printing parameters or the public key never shows the private value, '
  'success is reported only when the text was written, and the key stays as it was. The reported bit length of a key is the degree of its curve, and zero when it has none.',
  ['inputs', 'fault_sequences'], 'both key types, each kind of printing, complete and incomplete keys, each single failing step; all ten degrees',
  'No test prints a key or asks for its length in bits.', ['engine/ameth.c'], ('printing', 'engine/ameth.c:dstu_asn1_priv_print, dstu_asn1_pub_print, dstu_asn1_param_print'),
  ('length', 'engine/ameth.c:dstu_asn1_pkey_bits'))
P('C31', 'Threads using the engine at the same time do not disturb one another',
  'Once the engine is loaded, looking up algorithms, operating on keys, digests and ciphers and opening key stores change nothing that calls share, apart from the random generator under its lock, and call nothing that '
  'keeps hidden state. Signing, verifying, encoding, comparing and printing leave the keys they use untouched, so that threads may share a key.',
  ['schedules'], 'every operation of the method tables, of the digest, the cipher and the key stores, with and without a single failing step; every call site for hidden state',
  'The tests are single threaded; interleavings cannot be sampled exhaustively.', ['engine/dstu.c', 'engine/ameth.c', 'engine/pmeth.c', 'engine/md.c', 'engine/cipher.c', 'engine/sign.c', 'dstulib/params.c', 'dstulib/compress.c',
  'dstulib/gost/gosthash.c', 'dstulib/gost/gost89.c', 'keylib/jks.c', 'keylib/key6.c', 'keylib/pkcs12.c', 'keylib/utils.c'],
  ('method tables', 'engine/dstu.c:dstu_pkey_meth_get, dstu_asn1_meth_get'), ('per-context state', 'engine/md.c, engine/cipher.c'))
P('X01', 'Signing and key generation take no time that depends on the secret',
  'The time that signing and key generation take does not depend on the bits of the private key or of the nonce.',
  ['inputs'], 'all private keys and nonces', 'Timing on one machine shows nothing about another.', ['engine/sign.c', 'dstulib/key.c'], ('scalar multiplication', 'engine/sign.c:dstu_do_sign'))
P('X02', 'Signing and key generation always come to an end',
  'Drawing the nonce and the private key is repeated until the draw is usable, and the number of repetitions stays small for every working generator.',
  ['inputs'], 'all sequences of random draws', 'A test sees a few draws.', ['engine/sign.c', 'dstulib/key.c'], ('repeated draws', 'engine/sign.c:dstu_do_sign'))
NA['X01'] = 'Every operation on these secrets is done inside libcrypto (big numbers, points), whose timing this source does not determine; the rest is decided by compiler and machine.'
NA['X02'] = 'How often a draw is rejected is a matter of chance: no static bound exists for all sequences of draws (that only usable draws are accepted is C02 and C04).'
