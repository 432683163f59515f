"""Writes properties.jsonl (run by hand when the list changes)."""
import json
K='python/src/keyczar/'
def P(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    return dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None))
NOTE=" The 20 tests that pass reliably exercise only the interop driver, none of the library."
L=[
P('C01','Encryption round trip',
 "For every key set that can encrypt (AES or RSA, any key size, any number of versions), every message within the key's size limit, and every encoder/decoder choice, decrypting what was encrypted with the primary key returns exactly the message, also after other versions were added, promoted or demoted. An AES ciphertext is exactly Header(5) | IV(16) | CBC of the PKCS5-padded message | HMAC-SHA1(20) over everything before it, an RSA ciphertext is Header(5) | RSA(OAEP(message)). A key set without a primary key refuses to encrypt with NoPrimaryKeyError.",
 ['inputs','configurations'],"all messages (any length and byte values), all keys and key sizes, all IVs, all key sets",
 "Tests try one short message per stored key; padding boundaries, byte values, key sizes and key-set shapes are unbounded."+NOTE,
 [K+'keyczar.py',K+'keys.py'],
 [('Encrypter.Encrypt / Crypter.Decrypt',K+'keyczar.py'),('AesKey.Encrypt/Decrypt/_Pad/_UnPad',K+'keys.py'),('RsaPublicKey.Encrypt, RsaPrivateKey.Decrypt',K+'keys.py')],
 observe=['Encrypter.Encrypt','Crypter.Decrypt']),
P('C02','Symmetric decryption releases only authenticated plaintext',
 "For every input string, decrypting with an AES key set returns a plaintext only if the decoded input starts with version byte 0 followed by the identifier of a key in the set and ends with the 20-byte HMAC-SHA1, under that key's MAC key, of every byte before it. Every other input (wrong version, unknown key, too short, any changed, added or missing byte) is rejected with an error of the Keyczar hierarchy and no plaintext is released. What is returned is the CBC decryption of the bytes between IV and MAC under the identified key with its PKCS5 padding removed.",
 ['inputs'],"all byte strings offered as ciphertext, all key sets",
 "Soundness quantifies over all forged inputs; tests sample a handful of corruptions."+NOTE,
 [K+'keyczar.py',K+'keys.py'],
 [('Crypter.Decrypt, Keyczar._ParseHeader, Keyczar.GetKey',K+'keyczar.py'),('AesKey.Decrypt, HmacKey.Verify',K+'keys.py')],
 observe=['Crypter.Decrypt']),
P('C03','Signatures verify exactly when they should',
 "For every signing key set (HMAC, RSA, DSA) and message, the signature produced is Header | raw signature by the primary key over message|0x00, and it verifies with any signer or verifier holding that key. Verification answers True only if the signature begins with version byte 0 and the identifier of a key in the set and the rest is a valid raw signature of message|0x00 under that very key; too short, unknown or wrong-version headers raise errors of the Keyczar hierarchy, and malformed or non-matching signatures give False. Signing without a primary key raises NoPrimaryKeyError.",
 ['inputs','configurations'],"all messages, all signature strings, all key sets and encoders",
 "Soundness and completeness quantify over all messages and all candidate signatures."+NOTE,
 [K+'keyczar.py',K+'keys.py'],
 [('Signer.Sign, Verifier.Verify',K+'keyczar.py'),('HmacKey, RsaPrivateKey, DsaPrivateKey Sign / Verify',K+'keys.py')],
 observe=['Signer.Sign','Verifier.Verify']),
P('C04','Attached signatures bind data, nonce and key',
 "For every message and nonce (including empty and None), an attached signature is Header | 4-byte big-endian length | message | raw signature over message | packed nonce | 0x00, and verifying it with the same nonce returns exactly the message. Verification returns data only if it is the length-prefixed data in the blob and the rest of the blob is a valid signature of that data with the given nonce under the key named in the header. With any other nonce, data or key it returns None or raises.",
 ['inputs'],"all messages, nonces and blobs",
 "Framing confusion shows up only for particular lengths and nonce/data boundaries."+NOTE,
 [K+'keyczar.py',K+'util.py'],
 [('Signer.AttachedSign, Verifier.AttachedVerify',K+'keyczar.py'),('PackByteArray, UnpackByteArray',K+'util.py')],
 observe=['Signer.AttachedSign','Verifier.AttachedVerify']),
P('C05','Unversioned signatures',
 "For every key set and message an unversioned signature is exactly the raw signature of the message by the primary key, with no header and no version byte, and unversioned verification answers True if and only if at least one key of the set, whatever its status, accepts the signature for exactly that message. It never raises for a signature that is merely wrong.",
 ['inputs','configurations'],"all messages, all signatures, key sets with any number of versions",
 "The any-key quantifier over key sets of any size and order cannot be sampled exhaustively."+NOTE,
 [K+'keyczar.py'],[('UnversionedSigner.Sign, UnversionedVerifier.Verify',K+'keyczar.py')],
 observe=['UnversionedSigner.Sign','UnversionedVerifier.Verify']),
P('C06','Key identifiers are stable and as specified',
 "Every key's identifier is the unpadded web-safe Base64 of the first 4 bytes of the SHA-1 hash that the key format prescribes: AES: 4-byte key length, key, MAC key; HMAC: key; RSA: length-prefixed trimmed modulus and public exponent; DSA: length-prefixed trimmed p, q, g, y. A private key and its public key have the same identifier, it survives serialisation, and the 5-byte header of all output is a zero byte followed by those 4 bytes.",
 ['inputs'],"all key material",
 "One golden key per algorithm does not exercise leading zero bytes, lengths or sizes."+NOTE,
 [K+'keys.py',K+'util.py'],[('Key._Hash overrides, Key.Header',K+'keys.py'),('Hash, PrefixHash, TrimBytes, IntToBytes',K+'util.py')],
 observe=['Key.hash_id','Key.Header']),
P('C07','Keys and metadata survive serialisation',
 "For every key of every type and every metadata record, reading back its JSON text gives an equal object: same type, size, key material and identifier (so it decrypts and verifies whatever the original produced), and same name, purpose, type, encrypted flag and version numbers, statuses and export flags. The JSON fields carry the names and encodings of the Keyczar file format. Unknown type, purpose, status or mode names are rejected with a KeyczarError.",
 ['inputs'],"all keys and metadata values",
 "Round trip must hold for all field values; tests read a few stored files."+NOTE,
 [K+'keys.py',K+'keydata.py',K+'keyinfo.py'],[('Key.__str__ / Read / ReadKey',K+'keys.py'),('KeyMetadata, KeyVersion __str__/Read',K+'keydata.py'),('GetType/GetPurpose/GetStatus/GetMode',K+'keyinfo.py')],
 observe=['keys.ReadKey','KeyMetadata.Read']),
P('C08','Key-set life cycle',
 "Under every sequence of add, promote, demote and revoke, a key set has at most one primary version, version numbers are unique, an added version gets the highest existing number plus one, and statuses move only inactive->active->primary (promote), primary->active->inactive (demote); only inactive versions can be revoked, and promoting to primary or adding a primary demotes the old primary to active. The primary key reported and used is the version whose status is primary. An operation that is refused (unknown version, illegal transition, bad size) raises a KeyczarError and leaves the key set exactly as it was; a revoked key can no longer be found.",
 ['histories'],"all operation histories on key sets of any size",
 "Histories are unbounded; tests drive short scripted ones."+NOTE,
 [K+'keyczar.py',K+'keydata.py'],[('GenericKeyczar.AddVersion/Promote/Demote/Revoke',K+'keyczar.py'),('KeyMetadata.AddVersion/RemoveVersion/GetVersion',K+'keydata.py')],
 state=[('primary_version','the version with status primary, or none','Keyczar'),('_keys','maps versions and identifiers to keys','Keyczar'),('__versions','version number to version','KeyMetadata')],
 observe=['GenericKeyczar']),
P('C09','Key sets are only opened for their purpose',
 "A key set can be opened as encrypter only if its purpose is encrypt or decrypt-and-encrypt, as crypter only for decrypt-and-encrypt, as verifier or unversioned verifier only for verify or sign-and-verify, as signer or unversioned signer only for sign-and-verify; an encrypted key set needs an encrypted reader, and two primary versions are refused. Every refusal is a KeyczarError. When opening succeeds, every version of the metadata is available under its version and its identifier, with the key its reader supplied, and the primary version is the one marked primary. Opening a set by its location (Read) is opening it from the files at that location, as the class named.",
 ['configurations'],"all combinations of class, purpose, type, encrypted flag, reader and version list",
 "The product of purposes, classes, readers and version lists is not enumerated by tests."+NOTE,
 [K+'keyczar.py',K+'readers.py'],[('Keyczar.__init__, IsAcceptablePurpose, Read',K+'keyczar.py'),('EncryptedReader',K+'readers.py')],
 observe=['constructors of Encrypter, Crypter, Verifier, Signer, ...']),
P('C10','Web-safe Base64 codec, whole and incremental',
 "Encoding any byte string gives the unpadded web-safe Base64 text and decoding gives the string back; decoding ignores spaces and line breaks and raises Base64DecodingError for a length of 1 modulo 4. The incremental encoder, decoder, stream writer and stream reader give exactly the same result however the data is cut into pieces and however many characters are asked for, and a second flush or the close after a flush adds nothing; what a flush hands on to the stream below is flushed there too. After a reset the encoder and the decoder start anew. Encode and Decode are older names of the same functions.",
 ['inputs','histories'],"all byte strings, all ways of cutting them into chunks, all read sizes",
 "The number of chunkings is exponential; tests use fixed buffers."+NOTE,
 [K+'util.py'],[('Base64WSEncode, Base64WSDecode',K+'util.py'),('BufferedIncrementalBase64WSEncoder/Decoder, IncrementalBase64WSStreamWriter/Reader',K+'util.py')],
 observe=['util.Base64WSEncode','util.Base64WSDecode','stream classes']),
P('C11','Integer, byte and framing conversions are exact and inverse',
 "Conversion of any non-negative integer to big-endian bytes and back is the identity and minimal in length, the 4-byte form is the big-endian value modulo 2^32, bits and bytes convert back and forth, trimming removes exactly the leading zero bytes (leaving one for zero), padding prepends exactly the requested zeros, and XOR is byte-wise on right-aligned operands. Packing byte arrays with 4-byte lengths and unpacking them gives the same arrays and the right end offset, and inconsistent packed data is rejected, never looped on.",
 ['inputs'],"all integers, all byte strings, all lists of byte strings",
 "Values are unbounded; boundary values (0, 255, 256, leading zeros) are not covered."+NOTE,
 [K+'util.py'],[('BigIntToBytes, BytesToLong, IntToBytes, BinToBytes, BytesToBin, TrimBytes, PadBytes, Xor',K+'util.py'),('Pack/UnpackByteArray, Pack/UnpackMultipleByteArrays',K+'util.py')],
 observe=['keyczar.util']),
P('C12','Public-key encodings follow PKCS#1 and DSA formats',
 "For every modulus length, message within the limit and seed, RSA encryption operates on the OAEP-SHA1 encoding with empty label, and decoding inverts it also when the library strips leading zero bytes; messages over the limit and encodings with a wrong label hash or delimiter raise KeyczarError. RSA signatures operate on EMSA-PKCS1-v1_5 SHA-1 and are exactly as long as the modulus; DSA signatures are the DER sequence of r and s over the SHA-1 hash, and anything that is not exactly such a DER sequence of two integers is refused as KeyczarError. The mask generation function is MGF1-SHA1 of exactly the requested length.",
 ['inputs'],"all messages, seeds, modulus sizes and signature strings",
 "Leading-zero and boundary-length cases occur with probability 1/256 or less per random test."+NOTE,
 [K+'keys.py',K+'util.py'],[('RsaPublicKey.__Encode, RsaPrivateKey.__Decode, RsaPrivateKey.Sign',K+'keys.py'),('MGF, Xor, MakeEmsaMessage, MakeDsaSig, ParseDsaSig',K+'util.py')],
 observe=['RsaPublicKey.Encrypt','RsaPrivateKey.Decrypt','Sign/Verify']),
P('C13','PKCS8 and X.509 key export and import are inverse',
 "For all RSA and DSA parameters, parsing the exported PKCS8 text gives back every private parameter, and parsing the exported X.509 public key info gives back every public parameter, in the field order of those formats. A wrong number of top-level fields, an unknown version or an unknown algorithm identifier raises KeyczarError.",
 ['inputs'],"all integer parameter values",
 "Parameter values are unbounded; a swapped pair of fields is invisible unless values differ."+NOTE,
 [K+'util.py'],[('ExportRsaPkcs8, ExportDsaPkcs8, ParsePkcs8, ExportRsaX509, ExportDsaX509, ParseX509',K+'util.py')],
 observe=['keyczar.util']),
P('C14','Streaming encryption equals one-shot encryption',
 "However a message is cut into writes (including empty ones), after the final flush the encrypting stream has written exactly one valid Header | IV | ciphertext | MAC for the whole message, which one-shot decryption accepts and which is independent of the cutting (given the IV). Operations on a closed stream are refused.",
 ['histories','inputs'],"all messages and all write sequences",
 "Chunkings are exponential; block-boundary interactions need particular cuts."+NOTE,
 [K+'keys.py',K+'keyczar.py'],[('EncryptingStreamWriter, AesKey._NoPadBufferSize, HmacKeyStream',K+'keys.py'),('Encrypter.CreateEncryptingStreamWriter',K+'keyczar.py')],
 observe=['EncryptingStreamWriter']),
P('C15','Streaming decryption equals one-shot decryption',
 "For every valid ciphertext, every way the source delivers it (any piece sizes, none available yet) and every sequence of read sizes, the concatenation of what the decrypting stream returns is exactly the plaintext, and the end of data is reported only after the MAC was checked. For every ciphertext that one-shot decryption rejects (changed, truncated, unknown key) the stream raises an error by the time its end is reached.",
 ['histories','inputs','fault_sequences'],"all ciphertexts, delivery schedules of the source and read-size sequences",
 "Delivery and read schedules are unbounded."+NOTE,
 [K+'keys.py',K+'keyczar.py'],[('DecryptingStreamReader.read',K+'keys.py'),('Crypter.CreateDecryptingStreamReader',K+'keyczar.py')],
 observe=['DecryptingStreamReader.read']),
P('C16','Key sets on disk',
 "Writing a key set and reading it back gives the same metadata, statuses and keys; with an encrypter every key file holds only its ciphertext and the metadata is marked encrypted, without one the metadata is marked not encrypted and key files hold the plain JSON. Creating a key set never overwrites existing metadata, key files are named by version number, revoking removes the key file, and file errors surface as KeyczarError.",
 ['histories','configurations'],"all key sets, locations and encrypters",
 "All key sets and all write/read histories."+NOTE,
 [K+'keyczar.py',K+'writers.py',K+'readers.py',K+'util.py'],[('GenericKeyczar.Write',K+'keyczar.py'),('FileWriter',K+'writers.py'),('FileReader, EncryptedReader',K+'readers.py'),('WriteFile, ReadFile',K+'util.py')],
 observe=['files under the key set directory']),
P('C17','Public key export',
 "Exporting a private asymmetric key set yields a public key set with the same name, the same version numbers and statuses, the same key identifiers, type RSA/DSA public, and purpose verify for signing sets or encrypt for crypting sets, such that what the private set signs verifies and what the public set encrypts decrypts. No private parameter is ever part of the exported data, and symmetric or otherwise unsuitable key sets are refused with KeyczarError.",
 ['configurations','inputs'],"all key sets of every type and purpose",
 "All types, purposes and version lists."+NOTE,
 [K+'keyczar.py',K+'keys.py'],[('GenericKeyczar.PublicKeyExport',K+'keyczar.py'),('RsaPublicKey.__str__, DsaPublicKey.__str__',K+'keys.py')],
 observe=['exported files']),
P('C18','Sessions',
 "Data encrypted in a session decrypts, with the session material and the right key set, to exactly the data, for both plain and signed sessions; every session has its own fresh key and nonce. A signed session returns plaintext only if the attached signature over the ciphertext and the session's nonce verifies, otherwise None or an error. Session material that does not decrypt to exactly two length-prefixed arrays after a count word (or, for signed sessions, to the JSON with key and nonce) is refused.",
 ['inputs','histories'],"all messages, all sessions, several sessions alive at once",
 "Quantifies over messages and interleavings of several sessions sharing the memoised crypter."+NOTE,
 [K+'keyczar.py',K+'util.py'],[('_Session, SessionEncrypter/Decrypter, SignedSessionEncrypter/Decrypter',K+'keyczar.py'),('Memoize',K+'util.py')],
 observe=['SessionDecrypter.Decrypt','SignedSessionDecrypter.Decrypt']),
P('C19','HMAC computation and comparison',
 "A message's MAC is HMAC-SHA1 under the key bytes, the streaming form gives the same MAC however the message is cut, and verification answers True if and only if the offered MAC equals it in every byte and in length. It never raises for byte-string input and its answer does not depend on anything else.",
 ['inputs'],"all messages, keys and candidate MACs",
 "True iff equal over all pairs of byte strings."+NOTE,
 [K+'keys.py'],[('HmacKey.Sign/Verify/VerifySignedData, HmacKeyStream',K+'keys.py')],
 observe=['HmacKey.Verify','HmacKeyStream']),
P('C20','keyczart commands do what they say',
 "Each command line runs exactly the named operation with the given flags: create chooses the key type from purpose and algorithm (sign: HMAC, RSA, DSA; crypt: AES, RSA) with default name Test, addkey uses the given status (default active), size (default the type's) and crypter, promote, demote and revoke act on the given version and store the result, pubkey exports to the destination. The installed command passes its arguments on unchanged. Missing or unknown commands, flags, purposes, locations, destinations or versions are refused without changing the key set.",
 ['inputs','configurations'],"all argument vectors",
 "All combinations of commands and flags."+NOTE,
 [K+'keyczart.py'],[('main, Create, AddKey, PubKey, Promote, Demote, Revoke',K+'keyczart.py')],
 observe=['keyczart.main']),
P('C21','The interop driver covers the whole test matrix',
 "For every configuration, the driver generates every combination of implementation, operation, key set of the operation's purpose (plus the public variant for asymmetric crypting) and option values, and tests each on every implementation with every applicable test key set and option combination, leaving out exactly those that match an ignore rule. Options are the full Cartesian product of the operation's and key set's options with macros expanded, command flags match the key set, and every generated test runs with its own parameters under a name built from its implementations, operation, key set and option values. Run without arguments the driver creates the key sets, then generates and runs all tests; --create=n leaves out only the creation, display and options only show, and any other argument runs nothing.",
 ['configurations'],"all configuration files",
 "Tests check a few configurations; coverage claims are over all of them.",
 ['interop/interop.py'],[('_Options, _IsException, _TestAll, _GenerateAll, Keyset.GetGenerateKeysets, Keyset.GetTestKeysets, SetupInteropTests, main',"interop/interop.py")],
 observe=['InteropTestRunner']),
P('C22','Key generation',
 "A generated key has the requested type and size (the type's default if none is given), symmetric key material of exactly that many bits from the system's random source and a fresh 256-bit MAC key for AES, and key-pair parameters that agree between the private key, its public key and the underlying library key. Sizes not listed for the type, and public key types, are refused with KeyczarError, and a new version's identifier never equals that of a key already in the set.",
 ['inputs','configurations'],"all types, sizes and random outcomes",
 "Collisions and random outcomes cannot be forced by ordinary tests."+NOTE,
 [K+'keys.py',K+'keyczar.py',K+'keyinfo.py'],[('GenKey, *.Generate',K+'keys.py'),('GenericKeyczar.AddVersion',K+'keyczar.py'),('KeyType.IsValidSize',K+'keyinfo.py')],
 observe=['keys.GenKey','GenericKeyczar.AddVersion']),
P('C23','Key-set updates survive a crash',
 "If the process is killed at any point while a key set is being rewritten, the key set on disk can still be opened and contains every key it contained before.",
 ['crash_points'],"all crash points inside a key set rewrite",
 "Tests never interrupt a write."+NOTE,
 [K+'util.py',K+'writers.py'],[('WriteFile (truncates in place)',K+'util.py')],
 observe=['files under the key set directory after a kill']),
]
with open('/verif/properties.jsonl','w') as f:
    for p in L: f.write(json.dumps(p)+'\n')
for p in L:
    assert len(p['title'])<=80
