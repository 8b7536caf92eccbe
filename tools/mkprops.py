#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the long strings stay readable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "File reads return only authenticated plaintext",
  "Every byte a file read returns was authenticated under the volume's content key, with the file's own identifier and the block's own position in that file as associated data; the only exception is a full-size all-zero ciphertext block, which reads as zeros. If any block of the file is truncated, altered, reordered, duplicated or taken from another file, the read fails and returns no bytes at all. A file with content whose header has another version or an all-zero identifier, or a non-empty file shorter than a header, also fails the read; an empty file or a file that is only a header reads as empty.",
  ["inputs", "fault_sequences"], "every byte string the untrusted server can return as a file",
  "content_test.go only checks range arithmetic; no existing test decrypts a tampered, reordered or truncated file, and the space of ciphertexts is unbounded.",
  ["gocrypt/contentenc/content.go", "gocrypt/contentenc/file_header.go", "filetree/decrypt.go", "filetree/filetree.go", "gocrypt/siv_aead/siv_aead.go"],
  [("AEAD open per block", "gocrypt/contentenc/content.go:DecryptBlock"), ("block loop", "gocrypt/contentenc/content.go:DecryptBlocks"), ("associated data", "gocrypt/contentenc/content.go:concatAD"), ("header", "gocrypt/contentenc/file_header.go:ParseHeader"), ("whole file", "filetree/decrypt.go:decryptFile")],
  ["FileTree.ReadFile result"])

p("C02", "Sizes and offsets follow the on-disk geometry",
  "Converting between ciphertext and plaintext sizes, offsets and block numbers follows the gocryptfs layout exactly: an 18-byte header, then blocks of plaintext size plus nonce plus 16-byte tag. A plaintext size converted to a ciphertext size and back is unchanged, no conversion wraps around or lands inside the header, and a byte range is split into adjacent blocks that cover it exactly. The size shown in a listing or stat is computed by that conversion from the remote size, so it equals the number of bytes a read returns.",
  ["inputs", "configurations"], "every file size, offset and length, and both nonce lengths in use",
  "The tests sample a few ranges with one geometry; the conversions must be right for every size.",
  ["gocrypt/contentenc/offsets.go", "gocrypt/contentenc/content.go", "gocrypt/contentenc/intrablock.go", "filetree/decrypt.go", "filetree/filetree.go"],
  [("conversions", "gocrypt/contentenc/offsets.go"), ("block size", "gocrypt/contentenc/content.go:New"), ("joint ranges", "gocrypt/contentenc/intrablock.go")])

p("C03", "The proxy is read-only and never fakes success",
  "No client request makes the proxy create, change or remove anything on the remote server: the only remote operations it issues are opening for reading, reading, listing and stat. Every request it does not support (write, setstat, rename, rmdir, remove, mkdir, symlink, readlink, or any other method) is answered with an error, never with success.",
  ["inputs", "programs"], "every SFTP request method, path and target a client can send",
  "There is no test of the handlers; only a whole-program view can exclude a mutating remote call.",
  ["handlers/decrypt.go", "handlers/proxy.go", "backend/provider.go", "filetree/filetree.go"],
  [("request handlers", "handlers/decrypt.go"), ("remote calls", "backend/provider.go"), ("unsupported tree operations", "filetree/filetree.go")])

p("C04", "Only the configured user and password get in",
  "A client session is established only if its user name equals the configured proxy user and its password equals the configured proxy password, both non-empty; password authentication is the only method, and no other combination, attempt count or ordering is accepted. The configuration must pass validation of every required field before the proxy listens, and nothing is served on a connection whose handshake failed.",
  ["inputs", "configurations"], "every user name, password, authentication method and configuration file",
  "main has no tests; LoadConfig/Validate are tested in isolation, not that the server depends on them.",
  ["main.go", "config/config.go"],
  [("password callback", "main.go:main"), ("validation", "config/config.go:Validate"), ("handshake", "main.go:handleConn")])

p("C05", "The remote host key is always verified",
  "Every SSH connection the proxy opens to the remote server verifies the server's host key against the configured known_hosts file, and authenticates as the configured remote user with the configured private key. No path dials with host key checking disabled, replaced or skipped, and if the known_hosts file cannot be loaded the proxy does not start.",
  ["configurations", "fault_sequences"], "every dial on every path, including reconnects",
  "No test opens an SSH connection.",
  ["main.go", "backend/pool.go", "backend/provider.go"],
  [("known_hosts callback", "main.go:main"), ("dial", "backend/pool.go:newConn")])

p("C06", "Unsupported volumes are refused and flags honoured",
  "A volume configuration is accepted only if its version is exactly the supported one, every feature flag is known, and every flag required for its naming mode is present; anything else is refused with an error before any key is used. Once accepted, the flags decide the cipher (AES-SIV or AES-GCM), key derivation (HKDF or not), name encoding (raw or padded base64) and long-name handling, each by its own flag.",
  ["inputs", "configurations"], "every gocryptfs.conf content, including hostile ones",
  "config_test.go samples four files; it never checks how the flags are used when a tree is opened.",
  ["gocrypt/configfile/config_file.go", "gocrypt/configfile/feature_flags.go", "filetree/filetree.go"],
  [("acceptance", "gocrypt/configfile/config_file.go:Load"), ("flag lookup", "gocrypt/configfile/feature_flags.go"), ("use of flags", "filetree/filetree.go:Init")])

p("C07", "Weak password hashing parameters are refused",
  "The password is never hashed with scrypt parameters below the floor: N at least 2^10, R at least 8, P at least 1, salt at least 32 bytes and key length at least 32 bytes. Parameters below any of these stop the program before the hash is computed, whatever the configuration file says, and newly created configurations use R=8, P=1, a fresh random 32-byte salt and the requested or default cost.",
  ["inputs"], "every scrypt parameter set a rogue configuration can contain",
  "scrypt_test.go benchmarks cost only; no rejected parameter is tested because rejection exits the process.",
  ["gocrypt/configfile/scrypt.go"],
  [("parameter validation", "gocrypt/configfile/scrypt.go:validateParams"), ("derivation", "gocrypt/configfile/scrypt.go:DeriveKey")])

p("C08", "Decrypted names are always safe file names",
  "Name decryption succeeds only for a non-empty result of well-formed, fully verified padding (length 1 to 16, every padding byte checked, at least one byte left) and the resulting name never is \".\" or \"..\" and never contains \"/\" or a NUL byte. Every other input, including a wrong-length directory IV or an over-long name, is an error with an empty name.",
  ["inputs"], "every ciphertext name and directory IV the server can present",
  "names_test.go round-trips a few names and pads; hostile plaintexts and IVs are not sampled.",
  ["gocrypt/nametransform/names.go", "gocrypt/nametransform/pad16.go"],
  [("checks", "gocrypt/nametransform/names.go:DecryptName"), ("padding", "gocrypt/nametransform/pad16.go:unPad16")])

p("C09", "Remote paths stay under the configured root",
  "Every path the proxy sends to the remote server is the configured root, or the root extended component by component with names that the server itself listed in that directory and whose decryption equals the component the client asked for, or a fixed gocryptfs file name in such a directory. Text supplied by a client never becomes part of a remote path, whatever separators or dot components it contains.",
  ["inputs", "histories"], "every client path and every server listing, with any cache contents",
  "No test exercises path resolution; provenance of a path is a property of all data flows.",
  ["filetree/filetree.go", "filetree/fastcache.go"],
  [("path walk", "filetree/filetree.go:findPath"), ("lookup", "filetree/filetree.go:findInDir"), ("stat/read", "filetree/filetree.go")])

p("C10", "Concurrent equal requests share one fetch and all get answered",
  "For one key at most one remote fetch or decryption is in progress at a time (unless the caches are explicitly cleared meanwhile): only the worker that inserted the in-progress marker performs it, and it publishes the outcome for that key and wakes every waiter while holding the lock the waiters wait on. Every request taken from the queue is answered exactly once, either with a ticket or by closing its reply channel, before the worker does anything that can block, and a waiter only waits while its result is still pending with the worker it waits on.",
  ["schedules", "histories"], "every interleaving of requesters, workers, cache clears and timeouts",
  "The requester tests run a few goroutines with fakes and one schedule each.",
  ["requester/requester.go", "requester/makerequest.go", "requester/synccache.go"],
  [("worker", "requester/requester.go:worker"), ("marker and publish", "requester/requester.go:performRequestAndCache"), ("waiting", "requester/makerequest.go:makeRequest")])

p("C11", "A cached answer belongs to the request that gets it",
  "A request for a file, a directory or a name is answered only with the result of fetching that same path, or decrypting that same name with that same directory IV; files, directories and names never answer for one another, and the requester and the worker look under the same key. A failed fetch is reported as that failure, never as data, never as success, and never prevents a later attempt from fetching again.",
  ["histories", "schedules"], "every sequence of requests, failures and retries",
  "Tests use one or two keys; mix-ups need specific key pairs and failure histories.",
  ["requester/requester.go", "requester/makerequest.go", "requester/complexkey.go", "requester/synccache.go", "requester/readfile.go", "requester/readdir.go", "requester/decryptname.go"],
  [("key and cache choice", "requester/makerequest.go:makeRequest"), ("worker key", "requester/requester.go:worker"), ("composite key", "requester/complexkey.go")])

p("C12", "Shared state is only touched under its lock",
  "Shared maps, list links and counters are read and written only while the lock that guards them is held, with the write lock for any modification, and every lock acquired is released on every way out of the operation. No lock is taken again while the same goroutine already holds it, and locks are never released without being held.",
  ["schedules"], "every interleaving of all goroutines",
  "Races and deadlocks need particular schedules; the tests never run under contention on every operation.",
  ["requester/synccache.go", "requester/makerequest.go", "requester/requester.go", "filetree/fastcache.go", "gocrypt/cryptocore/randprefetch.go"],
  [("cache lock", "requester/synccache.go"), ("path cache lock", "filetree/fastcache.go"), ("ticket lock", "requester/requester.go"), ("nonce prefetch lock", "gocrypt/cryptocore/randprefetch.go")])

p("C13", "A pooled connection has one owner and is never lost or reused dead",
  "A remote connection is used by at most one operation at a time: each operation that obtains one gives it up exactly once on every path, either back to the pool or by closing it, and never touches it or anything opened through it afterwards. After a failed operation the connection returns to the pool only if it still answers a ping, and a connection the pool cannot hold is closed.",
  ["schedules", "fault_sequences"], "every operation, failure point and pool occupancy",
  "The backend package has no tests.",
  ["backend/provider.go", "backend/pool.go"],
  [("operations", "backend/provider.go"), ("pool", "backend/pool.go")])

p("C14", "Hostile input cannot crash the proxy",
  "Nothing a client sends and nothing the remote server returns (file contents, directory listings, directory IVs, names, lengths) can crash a serving proxy: no out-of-range index or slice, failed type assertion, nil dereference, division by zero, unbounded recursion, violated cipher-library precondition or explicit panic is reachable from such input. Malformed input yields an error for that request only.",
  ["inputs"], "every client request and every server response",
  "Tests feed well-formed inputs only.",
  ["main.go", "handlers/decrypt.go", "handlers/proxy.go", "filetree/filetree.go", "filetree/decrypt.go", "requester/makerequest.go", "gocrypt/contentenc/content.go", "gocrypt/contentenc/file_header.go", "gocrypt/contentenc/offsets.go", "gocrypt/nametransform/names.go", "gocrypt/nametransform/pad16.go", "config/config.go"],
  [("length guards", "gocrypt/nametransform/names.go:DecryptName"), ("payload guard", "main.go:handleChannel"), ("file guard", "filetree/decrypt.go:decryptFile")])

p("C15", "A failed step is never reported as success",
  "If any remote, decryption, decoding, configuration or file-system step an operation depends on fails, the operation reports an error and returns no result; a success answer means every step it needed succeeded. The only failures that may be passed over are closing something already finished with, the connection ping, an fsync of a new configuration file, and a listed name that does not decrypt, which is left out of a listing.",
  ["fault_sequences", "inputs"], "every step failing in every combination",
  "Tests inject a handful of backend failures.",
  ["filetree/filetree.go", "filetree/decrypt.go", "requester/makerequest.go", "backend/provider.go", "backend/pool.go", "config/config.go", "gocrypt/configfile/config_file.go", "main.go", "handlers/decrypt.go"],
  [("error propagation", "all functions returning an error")])

p("C16", "Secrets never reach logs, errors or output",
  "Passwords, passphrases, master and derived keys, and decrypted file contents never flow into a log line, an error message, standard output or standard error. The only exception is the master key reminder shown on creation, and only when standard output is a terminal.",
  ["inputs", "programs"], "every path on which something is logged, printed or formatted into an error",
  "Tests do not look at what is logged.",
  ["main.go", "config/config.go", "gocrypt/configfile/config_file.go", "gocrypt/configfile/scrypt.go", "gocrypt/cryptocore/cryptocore.go", "gocrypt/contentenc/content.go", "gocrypt/tlog/log.go", "filetree/filetree.go"],
  [("logging calls", "whole repository")])

p("C17", "Key material is wiped after its last use",
  "The scrypt hash, the unlocked master key and every key derived from it are overwritten with zeros in full once the ciphers that need them are set up, on every path that continues, and never before their last use; the key-wrapping cipher is wiped too. A cipher that keeps key bytes keeps its own copy, and wiping it zeroes that copy.",
  ["inputs", "configurations"], "every path through opening and creating a volume, for each cipher and derivation mode",
  "Memory contents after a call are not observable by the tests, and wiping too early only shows with particular modes.",
  ["gocrypt/configfile/config_file.go", "gocrypt/cryptocore/cryptocore.go", "gocrypt/siv_aead/siv_aead.go", "filetree/filetree.go"],
  [("wipe loops", "gocrypt/cryptocore/cryptocore.go:New"), ("scrypt hash", "gocrypt/configfile/config_file.go:DecryptMasterKey"), ("master key", "filetree/filetree.go:Init")])

p("C18", "Keys are separated by purpose and nonces are fresh",
  "Content keys and file name keys are derived from the 32-byte master key exactly as gocryptfs does: with HKDF-SHA256 under a different label for each of names, GCM content and SIV content, or, without HKDF, from the master key itself (its SHA-512 for SIV). A key of any other length is refused, the nonce length is the configured one, and every encryption under a random nonce takes a new nonce straight from the operating system's random generator that is never handed out twice.",
  ["configurations", "histories"], "every cipher, derivation mode and nonce length, and every sequence of encryptions",
  "hkdf_test.go checks the derivation function with fixed vectors, not which label each cipher gets; nonce reuse cannot be sampled.",
  ["gocrypt/cryptocore/cryptocore.go", "gocrypt/cryptocore/hkdf.go", "gocrypt/cryptocore/nonce.go", "gocrypt/cryptocore/randprefetch.go", "gocrypt/siv_aead/siv_aead.go", "gocrypt/contentenc/content.go"],
  [("cipher setup", "gocrypt/cryptocore/cryptocore.go:New"), ("derivation", "gocrypt/cryptocore/hkdf.go"), ("nonces", "gocrypt/cryptocore/randprefetch.go")])

p("C19", "A configuration is replaced atomically or not at all",
  "Writing a volume configuration never leaves a partial file under the configuration's name: the whole content is written to a new, exclusively created, owner-read-only file next to it, flushed and closed, and only then renamed over the target, and only if creating, writing and closing succeeded (a file system that cannot flush is only warned about). On failure the previous configuration is untouched and an error is returned.",
  ["crash_points", "fault_sequences"], "every crash point and failing step while writing",
  "Tests do not crash or fail file-system calls; the tests that create configurations do not even run here.",
  ["gocrypt/configfile/config_file.go"],
  [("write and rename", "gocrypt/configfile/config_file.go:WriteFile")])

p("C20", "The path cache is a bounded LRU with a consistent map",
  "The path cache answers a lookup only with the mapping last stored for exactly that path, holds at most its capacity, and on overflow drops precisely the least recently stored or looked-up entry. After every operation its usage list and its map contain the same entries, linked consistently in both directions, and clearing leaves it empty.",
  ["histories"], "every sequence of store, find and clear",
  "fastcache_test.go runs a few short histories; before the repair here it missed a broken back link that evicted the newest entry.",
  ["filetree/fastcache.go"],
  [("list", "filetree/fastcache.go:refreshNode"), ("eviction", "filetree/fastcache.go:Store")])

p("C21", "Listings are complete and every entry is its own",
  "A directory listing contains one entry for every remote entry whose name decrypts, in which the plaintext name, the remote attributes and the converted size all come from that same remote entry, and names are decrypted with the IV of that same directory. An entry is left out only because its name does not decrypt; stat and read resolve to the entry whose decrypted name equals the requested component, only directories are descended into, and listings reach the client in full across paged reads.",
  ["inputs", "histories"], "every directory content and every page size and offset",
  "No test lists a directory through the tree or the handlers.",
  ["filetree/filetree.go", "filetree/fileinfo.go", "handlers/proxy.go", "handlers/decrypt.go"],
  [("iteration", "filetree/filetree.go:rangeInDir"), ("entries", "filetree/filetree.go:ReadDir"), ("paging", "handlers/proxy.go:ListAt")])

p("C22", "Recycled buffers are never visible to anyone else",
  "A buffer is returned to a buffer pool at most once and only after its last use: nothing that a caller receives, a cache holds or a later step reads shares memory with a buffer already given back. Bytes held in a cache are never modified after they were stored.",
  ["schedules", "histories"], "every interleaving of concurrent reads and every file size",
  "Sharing shows only when another request reuses the buffer in between.",
  ["gocrypt/contentenc/bpool.go", "gocrypt/contentenc/content.go", "filetree/decrypt.go", "requester/requester.go"],
  [("pools", "gocrypt/contentenc/bpool.go"), ("copy before recycling", "filetree/decrypt.go:decryptFile"), ("block buffers", "gocrypt/contentenc/content.go:DecryptBlocks")])

p("C23", "One client cannot hold up the others",
  "The accept loop does nothing that waits on a client: every handshake, channel and session runs on its own goroutine, and all incoming channels and out-of-band requests of a connection are serviced and replied to. A worker never blocks handing a result to a requester that has given up, and closing or sending on a reply channel never happens twice.",
  ["schedules", "fault_sequences"], "every stalled, slow or vanished client at every point",
  "The server loop has no tests; a lost worker shows only after a timeout.",
  ["main.go", "requester/requester.go", "requester/makerequest.go"],
  [("accept loop", "main.go:main"), ("connection goroutines", "main.go:handleConn"), ("reply channel", "requester/makerequest.go:makeRequest")])

p("C24", "A volume opens only with its own master key",
  "The proxy serves a volume only after the master key stored in that volume's own configuration was unwrapped with the key derived from the supplied passphrase, by authenticated decryption at block position zero without a file identifier. A wrong passphrase (an empty one gets no special treatment) or an altered wrapped key never yields a served tree, and the key the ciphers use is that unwrapped key.",
  ["inputs", "configurations"], "every passphrase and every wrapped key",
  "Tests load good and bad versions of a file, not altered keys, and never build a tree.",
  ["gocrypt/configfile/config_file.go", "filetree/filetree.go", "handlers/decrypt.go", "main.go"],
  [("unwrap", "gocrypt/configfile/config_file.go:DecryptMasterKey"), ("tree setup", "filetree/filetree.go:Init")])

p("C25", "What the writer side produces the reader side accepts",
  "Encryption and decryption agree on every layout: a block is nonce, then ciphertext, then tag, with the same associated data (8-byte big-endian block number, then the file identifier) on both sides; a header is a 2-byte big-endian version then a 16-byte identifier; a name is padded, then encrypted under the directory IV, then base64-encoded with the same alphabet and padding it is decoded with. Consecutive blocks of one write get consecutive block numbers whether or not the work is split over goroutines, and each result lands at its own position.",
  ["inputs", "schedules"], "every plaintext, block number, identifier, name and number of blocks",
  "Round trips are tested for a few names only, block encryption in parallel not at all.",
  ["gocrypt/contentenc/content.go", "gocrypt/contentenc/file_header.go", "gocrypt/nametransform/names.go", "gocrypt/nametransform/pad16.go", "gocrypt/nametransform/diriv.go", "gocrypt/nametransform/longnames.go", "gocrypt/siv_aead/siv_aead.go"],
  [("block", "gocrypt/contentenc/content.go"), ("header", "gocrypt/contentenc/file_header.go"), ("name", "gocrypt/nametransform/names.go")])

p("C26", "Temporary and per-session resources are always released",
  "On every path, including every failure, the temporary copy of the volume configuration is removed, every file the proxy opens locally or remotely is closed, every half-open connection is closed, and a client's session channel is closed when its SFTP session ends for any reason. Nothing is used after it was closed.",
  ["fault_sequences", "crash_points"], "every failing step of opening a volume, a connection and a session",
  "Leaks are not observed by any test.",
  ["filetree/filetree.go", "backend/provider.go", "backend/pool.go", "main.go", "gocrypt/configfile/config_file.go"],
  [("temp file", "filetree/filetree.go:Init"), ("remote files", "backend/provider.go"), ("sessions", "main.go:handleChannel")])

p("C27", "Any gocryptfs file reads back byte-identical",
  "For every file gocryptfs wrote to the volume, a read through the proxy returns exactly the bytes that were written, and for every tree the names and hierarchy are those gocryptfs shows.",
  ["inputs", "histories"], "every volume gocryptfs can produce",
  "Unbounded set of volumes and contents.",
  ["filetree/filetree.go", "filetree/decrypt.go", "gocrypt/contentenc/content.go", "gocrypt/nametransform/names.go"],
  [("whole read path", "filetree, gocrypt")])

p("C28", "Every request is eventually answered",
  "Every client request is answered in bounded time, whatever the remote server does, and the caches answer with the remote state as of a bounded time ago.",
  ["schedules", "fault_sequences"], "every stalling or changing remote server",
  "Timing and liveness are outside what the tests control.",
  ["requester/makerequest.go", "backend/provider.go", "backend/pool.go"],
  [("timeouts and caches", "requester/makerequest.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
