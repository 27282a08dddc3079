#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long JSON lines stay reviewable)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["src/age/" + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


p("C01", "Encrypt then decrypt returns exactly the original bytes",
  "Whatever bytes are written to an encryptor, in any number of writes of any size and for any non-empty set of supported recipients (age X25519 keys, passphrases, SSH-RSA and SSH-Ed25519 keys), decrypting with the identity of any single one of those recipients returns exactly the same bytes, whatever the sizes of the reads. This includes the empty plaintext, lengths at and around multiples of 64 KiB, and plaintexts of several hundred chunks.",
  ["inputs", "configurations"],
  "every plaintext, every partition into writes and reads, every non-empty multiset of recipients, every value of the random secrets",
  "The tests encrypt one 12-byte and one 100 KiB plaintext with one recipient; no test decrypts through the file API with an SSH or passphrase recipient, none uses several recipients, an empty plaintext or a chunk-boundary length.",
  ["file.py", "stream.py", "format.py", "recipients/helpers.py", "algorithms/x25519.py", "algorithms/scrypt.py", "algorithms/ssh_rsa.py", "algorithms/ssh_ed25519.py"],
  [("Encryptor / Decryptor", "src/age/file.py"), ("STREAM chunking and nonces", "src/age/stream.py"), ("header dump/load", "src/age/format.py")],
  [("plaintext buffer", "bytes accepted and not yet encrypted", "src/age/file.py Encryptor"), ("file key", "secret wrapped to each recipient", "src/age/file.py")],
  ["bytes written to Encryptor, bytes read from Decryptor"])

p("C02", "One matching identity always suffices to decrypt",
  "Decryption succeeds whenever at least one of the supplied identities matches at least one recipient of the file, whatever the number and order of the recipients and identities. Other identities that do not match (of any kind, including SSH keys of other users and wrong passphrases) and recipient entries of types the program does not know never prevent it.",
  ["inputs", "configurations"],
  "every list of recipients, every list of identities with at least one match, every position of unknown recipient entries",
  "Tests only try a single recipient with zero or one identity; the interaction of several identities and several recipients of mixed kinds (a quadratic loop with per-kind error signalling) is never executed.",
  ["recipients/helpers.py", "file.py", "algorithms/ssh_rsa.py", "algorithms/ssh_ed25519.py"],
  [("recipient x identity search", "src/age/recipients/helpers.py decrypt_file_key"), ("unknown recipients ignored", "src/age/file.py Decryptor._decrypt_header")],
  observe=["outcome of opening a Decryptor"])

p("C03", "Without a matching identity nothing is decrypted",
  "If none of the supplied identities belongs to a recipient of the file, decryption fails with the error that says no identity matched and yields no byte of plaintext. This holds for near misses too: passphrases that differ in a single character, case, surrounding whitespace or Unicode form, keys that differ in a single bit, and SSH keys whose short fingerprint tag in the file was made to coincide.",
  ["inputs", "configurations"],
  "every file and every set of identities disjoint from its recipients, including adversarially close identities",
  "One test tries one unrelated X25519 key; near misses, other recipient kinds, sets of identities and tag collisions are not sampled.",
  ["recipients/helpers.py", "algorithms/scrypt.py", "algorithms/ssh_rsa.py", "algorithms/ssh_ed25519.py", "algorithms/x25519.py", "primitives/encrypt.py"],
  [("AEAD-wrapped file key", "src/age/primitives/encrypt.py"), ("NoIdentity", "src/age/recipients/helpers.py")],
  observe=["outcome of opening a Decryptor"])

p("C04", "Any change to the payload is detected",
  "If the encrypted payload of a file (everything after the header) is changed in any way - bits flipped, truncated at any byte including right after the header or the nonce, extended, chunks dropped, repeated, reordered or exchanged with those of another file - decryption fails with an error and no plaintext is returned. In particular a truncated file never decrypts to a shorter or empty plaintext.",
  ["inputs", "fault_sequences"],
  "every payload, every mutation of its bytes, including all truncation points and all permutations of chunks",
  "No test modifies a ciphertext at all.",
  ["stream.py", "file.py"],
  [("STREAM nonce counter and final-chunk flag", "src/age/stream.py"), ("payload nonce in key derivation", "src/age/file.py")],
  observe=["outcome of opening a Decryptor on the mutated bytes"])

p("C05", "Any change to the header is detected",
  "If anything in a file's header before the authentication tag changes - a recipient entry added, removed, duplicated, reordered, re-wrapped or edited, a line or whitespace inserted anywhere, or the version line altered - or if the tag is replaced by a different value, shortened or removed, decryption fails with an error and yields no plaintext, even when a matching recipient entry is left intact.",
  ["inputs", "fault_sequences"],
  "every header and every mutation of its bytes before the tag, plus every different tag value",
  "No test modifies a header; header_test only loads one well-formed example.",
  ["file.py", "format.py", "primitives/hmac.py"],
  [("header MAC", "src/age/file.py Decryptor._decrypt_header"), ("bytes covered by the MAC", "src/age/format.py load_header")],
  observe=["outcome of opening a Decryptor on the mutated bytes"])

p("C06", "Written files follow the age v1 format",
  "Every file the program writes can be parsed by an independent strict implementation of the age v1 file format (version line, recipient entries with canonical unpadded base64 wrapped at 64 columns and ending in a short line, tag, 16-byte nonce, 64 KiB STREAM chunks with a marked final chunk) and decrypted by it to the same plaintext. X25519, scrypt and ssh-rsa entries follow the published v1 definitions; ssh-ed25519 entries follow the draft definition this program has always used; entries appear in the order in which recipients were given, one per recipient.",
  ["inputs", "configurations"],
  "every plaintext, every list of recipients (every RSA key size), every value of the random secrets",
  "A single byte-for-byte vector (one X25519 recipient, 12 bytes, fixed randomness) is tested; round-trip tests cannot see errors that encryption and decryption share.",
  ["file.py", "format.py", "stream.py", "recipients/x25519.py", "recipients/scrypt.py", "recipients/ssh_rsa.py", "recipients/ssh_ed25519.py", "primitives/encode.py"],
  [("header dump", "src/age/format.py dump_header"), ("entry encoders", "src/age/recipients/*.py"), ("stream encryption", "src/age/stream.py")],
  observe=["bytes written by Encryptor"])

p("C07", "Files from other age v1 implementations decrypt",
  "Every file produced by an independent age v1 writer for recipients this program supports decrypts to the right plaintext: any plaintext length, any mix of recipients, entries of unknown types with any arguments and bodies, entry bodies that are empty or exact multiples of 64 columns, passphrase entries with any permitted work factor, and any key and nonce bytes. Files written by earlier releases of this program with non-empty plaintext keep decrypting.",
  ["inputs", "configurations"],
  "every conforming file with at least one supported recipient whose identity is supplied",
  "The compatibility job needs the network and tries two one-line files; the unit tests decrypt nothing another implementation wrote (the only candidate tests do not run in this environment).",
  ["file.py", "format.py", "stream.py", "recipients/helpers.py"],
  [("header load", "src/age/format.py load_header"), ("entry parsers", "src/age/recipients/*.py"), ("stream decryption", "src/age/stream.py")],
  observe=["bytes read from Decryptor"])

p("C08", "Every encryption uses fresh, unrepeated secrets",
  "File keys, payload nonces, ephemeral secrets, passphrase salts and generated private keys never repeat: not between files, not between the recipients of one file, not in processes forked from a common parent, and not when clocks and ordinary pseudo-random generators are reset to the same state. No AEAD key and nonce pair is ever used to encrypt two different messages, for any number of chunks.",
  ["histories", "schedules", "inputs"],
  "every history of encryptions and key generations in one process, in threads and in forked processes",
  "A test sees one execution; repetition is a property of the whole history, and the one exact-output test replaces the random source by a constant.",
  ["file.py", "stream.py", "algorithms/x25519.py", "algorithms/scrypt.py", "primitives/random.py", "keys/agekey.py"],
  [("OS random source", "src/age/primitives/random.py"), ("chunk nonce counter", "src/age/stream.py")],
  [("history of secrets", "values recovered from each written file", "offline checker")],
  ["files written, AEAD calls at the library boundary"])

p("C09", "Passphrase files are hard to guess and cheap to refuse",
  "Passphrase recipients are written with a 16-byte random salt and a scrypt work factor of at least 2^18, every byte of the passphrase counts, and the derived key depends on passphrase, salt and work factor. On decryption an entry whose work factor is negative, malformed or above 2^22 is refused before any key derivation of that cost is started.",
  ["inputs", "configurations"],
  "every passphrase, every salt and every work factor in an attacker-supplied file",
  "Tests use one random 10-byte passphrase with cost 16 and two out-of-range costs through an internal function; the parameters really written to files are not looked at.",
  ["algorithms/scrypt.py", "recipients/scrypt.py", "primitives/scrypt.py", "keys/password.py"],
  [("work-factor bounds", "src/age/algorithms/scrypt.py"), ("scrypt call", "src/age/primitives/scrypt.py")],
  observe=["scrypt entries in written files, key-derivation calls at the library boundary"])

p("C10", "ASCII armor is lossless and malformed armor is refused",
  "Armoring any byte string and reading it back yields the same label and bytes; the armored form has the BEGIN and END lines, standard padded base64 in lines of exactly 64 columns except the last, and independent PEM readers accept it. A reader finds every section in order whatever text surrounds it, and rejects unclosed sections, mismatched labels, invalid labels, non-base64 content and wrong line lengths; an armored age file with no or several age sections is rejected.",
  ["inputs"],
  "every byte string (all lengths modulo 48), every label, every surrounding text and every structural mutation",
  "Tests round-trip one 1024-byte string and try three malformed documents.",
  ["utils/asciiarmor.py"],
  [("armor writer and reader", "src/age/utils/asciiarmor.py")],
  observe=["armored text and decoded sections"])

p("C11", "Key strings are exact and catch typing errors",
  "Every age public and private key survives conversion to its text form and back, and the text form is the bech32 encoding of the 32 key bytes, all lower case with prefix 'age1' for public keys and all upper case with prefix 'AGE-SECRET-KEY-1' for private keys. A string with up to four characters substituted, or with wrong prefix, length, padding or mixed letter case, is rejected, and any string that is accepted is, up to letter case, exactly the text form of the key it yields.",
  ["inputs"],
  "every 32-byte key, every valid prefix and payload, every corruption of up to four characters",
  "Tests hold one key, a handful of BIP173 vectors and 90 random round trips; the error-detection guarantee quantifies over all corruptions.",
  ["primitives/bech32.py", "keys/agekey.py"],
  [("bech32 checksum, padding and case rules", "src/age/primitives/bech32.py"), ("prefix and length checks", "src/age/keys/agekey.py")],
  observe=["strings and keys at the public constructors"])

p("C12", "OpenSSH private keys load as exactly the stored key",
  "Loading an OpenSSH-format private key (RSA, Ed25519, ECDSA on the supported curves or DSA; unencrypted, or encrypted with AES-CTR and bcrypt under the right passphrase, any number of rounds, any comment) yields exactly the key stored in the file. A wrong or missing passphrase is reported as such, and files that are truncated, have trailing data, broken padding, mismatching check values, several keys or contradictory Ed25519 halves are rejected; no file ever loads as a key other than the one stored in it.",
  ["inputs"],
  "every key, cipher, rounds, comment length, passphrase and every truncation or mutation of the file",
  "Five fixed files are loaded in tests; no truncation, padding, comment length, AES-128/192 or corruption is tried.",
  ["openssh_keys.py", "keys/rsa.py", "keys/ed25519.py", "keyloader.py"],
  [("container parser", "src/age/openssh_keys.py load_openssh_private_key"), ("decryption", "src/age/openssh_keys.py _decrypt_key")],
  observe=["key numbers of the returned key"])

p("C13", "SSH public keys map to the right fingerprints and X25519 keys",
  "For every SSH-RSA and SSH-Ed25519 key, the binary encoding, the MD5 and SHA256 fingerprints and fingerprint lines equal what ssh-keygen reports, and equality and hashing of public keys follow the key bytes only, not the comment. For every Ed25519 key pair the X25519 public key converted from its public half equals the public key of the X25519 private key converted from its private half, and both equal the standard birational map.",
  ["inputs"],
  "every Ed25519 and RSA key, every comment, both fingerprint algorithms",
  "One fixed key per type for fingerprints, one random key for the conversion.",
  ["keys/ed25519.py", "keys/rsa.py"],
  [("fingerprints", "src/age/keys/rsa.py, src/age/keys/ed25519.py"), ("curve conversion", "src/age/keys/ed25519.py")],
  observe=["fingerprint strings, converted key bytes"])

p("C14", "All usable identities are loaded, unusable ones are skipped",
  "Loading a key file returns exactly the private keys listed in it, in order, ignoring blank lines and comments and rejecting malformed key lines. Looking for SSH identities returns exactly the unencrypted RSA and Ed25519 private keys among the id_* files, in whichever supported format each is stored; a file that is encrypted, of another type, unsupported, truncated or no key at all is skipped and never prevents the other identities from being used.",
  ["inputs", "configurations", "fault_sequences"],
  "every key file and every directory of key files, in every combination of good and unusable files",
  "Tests load one key file and one directory holding two good keys and an empty file.",
  ["keyloader.py", "openssh_keys.py", "keys/agekey.py"],
  [("key file reader", "src/age/keyloader.py load_keys_txt"), ("SSH key discovery", "src/age/keyloader.py load_ssh_keys")],
  observe=["returned identities; decrypt command with such a home directory"])

p("C15", "Recipient names resolve to exactly the keys they denote",
  "Every recipient given to encryption - a public key, an alias, a file, a URL or a github: user - stands for exactly the keys it lists, in order: each of those keys can decrypt the result and no other key is added. A recipient that resolves to no key, an alias with an unresolvable member, a malformed key or a failing URL makes encryption fail instead of being dropped. Lines of recipient files and URL responses are only ever read as keys: they never cause aliases to be expanded, other files to be read or other URLs to be fetched.",
  ["inputs", "configurations", "fault_sequences"],
  "every list of recipients, every alias file, recipient file and server response",
  "Tests resolve a single public key and parse one alias file; files, URLs, aliases in use, failures and nested references are untested.",
  ["keyloader.py", "cli.py"],
  [("resolution order and flags", "src/age/keyloader.py resolve_public_key"), ("alias file", "src/age/keyloader.py load_aliases")],
  observe=["resolved keys, recipients in the written file, network and file accesses"])

p("C16", "A failing command leaves no output behind",
  "When encrypt or decrypt fails before it has produced its complete result - no or unresolvable or unusable recipients, no matching identity, a damaged, truncated or forged input, malformed armor or keys, an unreadable input - it exits with a non-zero status, writes nothing to standard output, and leaves an existing output file unchanged (or a missing one uncreated). Plaintext is released only after the entire input has been authenticated.",
  ["inputs", "fault_sequences", "configurations"],
  "every cause of failure, with output to a file or standard output, armored or not, output file present or absent",
  "The CLI tests check the exit status of two failing invocations without an output file; all decrypt CLI tests fail to run here.",
  ["cli.py", "file.py", "utils/asciiarmor.py"],
  [("output opened lazily, written once complete", "src/age/cli.py"), ("authenticate before release", "src/age/file.py Decryptor")],
  observe=["exit status, standard output, content of the output path"])

p("C17", "Success is reported only when the whole output was written",
  "If encrypt, decrypt or generate exits with status 0 then its complete output has been handed to the operating system, whichever output channel is used (file or standard output, armored or not, buffered or unbuffered). If writing fails or is cut short at any byte (full disk, file-size limit, closed or broken output) the exit status is non-zero.",
  ["fault_sequences", "crash_points", "configurations"],
  "every byte offset at which a write can fail, every command and output mode",
  "No test makes a write fail.",
  ["cli.py", "utils/asciiarmor.py", "file.py"],
  [("explicit finalisation of armor and output", "src/age/cli.py"), ("close propagates errors", "src/age/utils/asciiarmor.py, src/age/file.py")],
  observe=["exit status versus bytes that reached the output"])

p("C18", "Every combination of command-line options round-trips",
  "For every combination of input (file or standard input), output (file or standard output), armor and recipient kind, decrypting what the encrypt command wrote with the corresponding decrypt options reproduces the input exactly, binary data included. This also holds when input and output are the same file, for both commands, and when identities come from the default key file, the SSH directory, key files on the command line or a passphrase prompt. When nobody can be asked for a passphrase, data on standard input is never (partly) taken for it: the command fails.",
  ["configurations", "inputs"],
  "every combination of options and identity sources, every input file content",
  "The CLI tests cover encryption of one 12-byte input to standard output; the decrypt tests cannot run in this environment.",
  ["cli.py", "file.py", "keyloader.py", "utils/asciiarmor.py"],
  [("option plumbing", "src/age/cli.py")],
  observe=["files and streams of real command executions"])

p("C19", "Generated key pairs are valid and announced truthfully",
  "The generate command writes a creation-time comment, a comment with the public key and the private key in the key-file format; the private key loads again, the public key announced in the comment and on standard error is the one that belongs to it, and the private key goes to the chosen output only. When the output is a regular file that group or others can access the user is warned with the file's actual permissions, and otherwise not.",
  ["inputs", "configurations"],
  "every generated key, every output channel, every permission mode of the output file",
  "One run with a fixed key and a fixed date to standard output.",
  ["cli.py", "keys/agekey.py", "keyloader.py"],
  [("generate", "src/age/cli.py generate")],
  observe=["output, standard error and file modes of real command executions"])

p("C20", "Cryptographic building blocks compute the published functions",
  "For every input, the exported primitives return what the standards define: HMAC-SHA-256 (RFC 2104) for keys of any length with verification accepting only the right tag, HKDF-SHA-256 (RFC 5869), scrypt with r=8 and p=1 (RFC 7914), X25519 and its base-point form (RFC 7748), scalar reduction modulo the group order, ChaCha20-Poly1305 with a zero nonce (RFC 8439), RSA-OAEP with SHA-256 and label (RFC 8017), SHA-256 and unpadded base64. Encryption and decryption primitives are inverse to each other and reject altered ciphertexts, keys and labels.",
  ["inputs"],
  "every key, message, salt, label and length",
  "A few published vectors per primitive; key-length classes such as 33 to 64 byte HMAC keys are not among them.",
  ["primitives/hmac.py", "primitives/hkdf.py", "primitives/scrypt.py", "primitives/x25519.py", "primitives/encrypt.py", "primitives/rsa_oaep.py", "primitives/hashes.py", "primitives/encode.py"],
  [("wrappers over cryptography and PyNaCl", "src/age/primitives/*.py")],
  observe=["arguments and results of the exported primitives"])

p("C21", "Secrets stay in their channel and effects stay confined",
  "No plaintext, passphrase, file key or private key ever appears in a ciphertext, on standard error (tracebacks and error messages included), on standard output of encrypt, or in the printable representation of a key object (what is given as the name of a recipient is not a secret). Encrypt, decrypt and generate write no file other than the chosen output, start no other program, and contact the network only for recipients given as URL or github: user.",
  ["inputs", "configurations", "fault_sequences"],
  "every succeeding and failing command execution and every key",
  "No test looks at side channels of a run; the claim quantifies over all runs, including all failing ones.",
  ["cli.py", "file.py", "keys/agekey.py", "keys/password.py", "keys/rsa.py", "keys/ed25519.py", "keyloader.py"],
  [("printable forms show public parts only", "src/age/keys/*.py"), ("no temporary files", "src/age/cli.py")],
  observe=["all output streams, process audit events"])

p("C22", "Concurrent and interleaved use does not interfere",
  "Any number of encryptors, decryptors, armor streams and key objects may be used at the same time from one or several threads as long as each stream object is used by one thread: every operation gives the same result as if it ran alone. Key objects may be shared between threads.",
  ["schedules", "histories"],
  "every interleaving of operations on distinct objects, in one thread and at every point where threads can be preempted",
  "No test has two objects alive at once or more than one thread.",
  ["file.py", "stream.py", "format.py", "utils/asciiarmor.py", "primitives/hmac.py", "recipients/helpers.py"],
  [("all state is per object", "src/age/*.py")],
  observe=["results of operations under a controlled scheduler"])

p("C23", "Arbitrary input never yields forged plaintext, hangs or blow-up",
  "For every byte string given as ciphertext, armored ciphertext, key file, alias file or SSH key (without a passphrase), processing terminates with an exception or a result, in a number of steps proportional to the input size. Plaintext is only ever returned if it was encrypted, in full, by someone holding a public key or passphrase of one of the supplied identities and the header is intact.",
  ["inputs"],
  "every byte string, in particular mutations of valid files",
  "Tests feed a handful of malformed strings.",
  ["file.py", "format.py", "stream.py", "utils/asciiarmor.py", "openssh_keys.py", "keyloader.py", "primitives/bech32.py"],
  [("parsers", "src/age/format.py, src/age/utils/asciiarmor.py, src/age/openssh_keys.py")],
  observe=["outcome and executed line count of each parse"])

p("C24", "Low-order points are refused",
  "A recipient key or a recipient entry that would make the X25519 shared secret the all-zero value is refused: encrypting to such a public key (given as an age key or converted from an SSH-Ed25519 key) fails, and an entry carrying such a share never unlocks a file, so that nobody without the identity can craft an entry it accepts.",
  ["inputs"],
  "all encodings of low-order points, canonical or not, in keys and in entries, alone or next to valid ones",
  "No test uses a low-order point.",
  ["primitives/x25519.py", "algorithms/x25519.py", "algorithms/ssh_ed25519.py"],
  [("all-zero check", "src/age/primitives/x25519.py x25519_scalarmult")],
  observe=["outcome of encryption and decryption"])

p("C25", "Header serialisation is lossless and consumes exactly the header",
  "For every list of recipient entries (type, arguments, base64 body of any length) and tag, writing the header and reading it back yields the same entries in the same order and the same tag, and the reader leaves the stream positioned at the first byte of the payload whatever bytes the payload starts with. A stream that does not start with the version line, ends before the footer, or has a footer without a tag is rejected.",
  ["inputs"],
  "every header structure, every payload prefix, every truncation of the header",
  "One well-formed header is loaded and only the types of three of its entries are looked at.",
  ["format.py", "primitives/encode.py"],
  [("dump_header / load_header", "src/age/format.py")],
  observe=["entries, tag and stream position"])

p("C26", "Streams honour every history of file operations",
  "For every sequence of writes (bytes, bytearrays, memoryviews, empty ones included), flushes, closes, repeated closes, context-manager exits and disposal, an encryptor or armor writer accepts or refuses each write, and after the first close the target holds exactly one complete result made of all accepted writes: nothing accepted is lost, nothing is written twice, writes after close are refused and the underlying stream (of readers, too) stays open and usable, whatever kind of stream that is: buffered, or unbuffered and accepting (or delivering, for readers) only a part at a time. An encryptor whose construction failed writes nothing to its target, ever; a decryptor or armor reader returns the remaining data consistently for every sequence of sized reads, line reads and iteration.",
  ["histories"],
  "every finite sequence of stream operations",
  "Tests perform one write and one close.",
  ["file.py", "utils/asciiarmor.py"],
  [("close-once finalisation", "src/age/file.py Encryptor.close, src/age/utils/asciiarmor.py AsciiArmoredOutput.close")],
  [("open/closed", "whether the result has been finalised", "src/age/file.py, src/age/utils/asciiarmor.py")],
  ["operation results and target content after every step"])

p("C27", "Terminals receive no ciphertext and passphrases typed on them stay secret",
  "Without an output file, encrypt refuses to run when standard output is a terminal, whatever the recipients, options and input: it exits with a non-zero status and writes nothing to the terminal but messages; decrypt and generate may write their exact output to a terminal. A passphrase is read from the controlling terminal even when standard input carries the data, is never shown while it is typed nor printed later, and every command leaves the settings of the terminal as it found them, also when it is interrupted or fails at the prompt.",
  ["configurations", "inputs", "histories"],
  "every combination of descriptors bound to terminals, pipes and files, every way a prompt ends",
  "No test has a terminal: the test runner captures the streams and the prompt is replaced by a function.",
  ["cli.py"],
  [("refusal to encrypt to a terminal", "src/age/cli.py encrypt"), ("passphrase prompt", "src/age/cli.py _ask_passphrase")],
  observe=["output and settings of a pseudo-terminal during real command executions"])

p("C28", "Repeated use leaves nothing behind and earlier use never shows",
  "In any history of library calls and commands within one process, right and failing ones, every result depends only on the arguments, files, responses and environment of that moment: nothing of earlier keys, passphrases, files, aliases or HOME directories shows, also when a file changed without a trace in its size and time stamps or the caller changed an object it was given. Objects of the caller (lists of keys, alias tables, headers, buffers, streams) are not changed or closed, and afterwards the process is as before: no descriptors, threads, children, temporary files, signal handlers, environment, working directory, umask, warning filters, hooks, replaced standard streams or seeded generators are left behind, unused objects are freed and memory does not grow with the number of operations.",
  ["histories"],
  "every finite sequence of operations in one process with changing surroundings",
  "Each test does one operation on fresh objects and looks at nothing but its result.",
  ["cli.py", "file.py", "keyloader.py", "recipients/helpers.py", "utils/asciiarmor.py", "format.py"],
  [("loaders read their files on each call", "src/age/keyloader.py"), ("streams opened, detached and left", "src/age/utils/asciiarmor.py, src/age/cli.py")],
  observe=["results, caller's objects and state of the process between operations"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
