#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of truth for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[dict(zip(("name","meaning","where"),s)) for s in state],
        "mechanism":[dict(zip(("name","where"),m)) for m in mech],
        "observe_at":list(observe),"hook_needed":None}})
I=["inputs"];H=["histories"];IH=["inputs","histories"]
prop("C01","A block-structured stream behaves exactly like a byte array",
 "Whatever sequence of writes, truncations and reads is applied at whatever offsets and lengths, a read returns exactly the bytes a plain growable byte array would (last written data, zeros in every gap or extension, nothing beyond the end) and the reported size matches. This holds for sparse and non-sparse backing storage, and no read or write touches memory outside the caller's buffer.",
 IH,"every history of write/resize/read with arbitrary offsets, lengths, contents and block sizes, on sparse and dense backing storage",
 "The stream tests use random offsets on one or two block sizes; alignment corner cases (start/end residues, shrink then re-extend, extension inside the last block) multiply beyond sampling and none of these tests is even built here.",
 ["sources/streams.cpp","sources/streams.h"],
 [("BlockBasedStream::read/write/unchecked_write/unchecked_resize/zero_fill","sources/streams.cpp")])
prop("C02","Lite-format encrypted files read back what was written",
 "A lite-format file stream returns exactly the bytes written to it at the offsets they were written (zeros for gaps), before and after it is closed and reopened with the same key, for every combination of block size, IV size, padding and write/truncate/read history. The reported size is always the plaintext size. This holds through every handle of a file, however many are open and with whichever flags they were opened.",
 IH,"histories of write/resize/read/reopen on the lite stream; parameters block size, IV size, padding",
 "Tests exercise one default block size with random data; size arithmetic around block boundaries with IV+MAC overhead and reopened sparse holes is input dependent.",
 ["sources/lite_stream.cpp","sources/lite_stream.h","sources/streams.cpp"],
 [("lite::AESGCMCryptStream::read_multi_blocks/write_multi_blocks/adjust_logical_size/size","sources/lite_stream.cpp")])
prop("C03","Full-format encrypted files read back what was written",
 "A full-format file stream (data stream plus authenticated metadata stream) returns exactly the bytes and header last written, before and after flush and reopen with integrity checking on, for every write/truncate/read/header history. The plaintext size always equals the data stream's size.",
 IH,"histories of write/resize/read/write_header/flush/reopen on the full-format stream",
 "Tests cover a handful of fixed sequences; consistency of two streams after arbitrary truncation and sparse extension is a property of histories.",
 ["sources/streams.cpp","sources/streams.h"],
 [("internal::AESGCMCryptStream","sources/streams.cpp"),("internal::HMACStream","sources/streams.cpp")])
prop("C04","Lite-format tampering never yields forged plaintext",
 "If any byte of a lite-format ciphertext file is modified, or blocks are moved, swapped or copied in from another file or another position, then with verification enabled every read either fails with a verification error or returns only bytes that were genuinely written at that position of that file (or zeros where a whole block was replaced by a hole). A failed read never reports success.",
 I,"every position and value of modification, every block permutation/splice within bounds",
 "Tests flip a few bytes at fixed positions; authenticity must hold for every modification, including structure-aware block moves.",
 ["sources/lite_stream.cpp"],
 [("GCM associated data = block number + padding; per-file session key from file id","sources/lite_stream.cpp")])
prop("C05","Full-format tampering with data or metadata is detected",
 "With integrity checking on, any modification of a full-format file's metadata stream (including its header and the per-block IV/MAC table) makes opening it fail, and any modification of a data block makes reading that block fail, instead of returning altered content; splicing in the streams of another file id is detected the same way.",
 I,"every byte position/value modification in data and meta streams; cross-file substitution",
 "Tests modify a couple of bytes; the guarantee is over all adversarial modifications.",
 ["sources/streams.cpp"],
 [("HMACStream constructor check and flush","sources/streams.cpp"),("GCM with file id as associated data","sources/streams.cpp")])
prop("C06","Every encryption uses a fresh, non-zero IV and stores only ciphertext",
 "Each block or header encryption draws a new random IV of the full configured length, which is stored with the ciphertext and, for data blocks, is never all zero; no plaintext byte supplied by the user reaches the backing storage except through the cipher. Each lite file has an identifier of its own, fully random, from which its key is made. Rewriting a block never reuses the IV of an earlier version of any block under the same key.",
 IH,"every write history, including partial-block rewrites, and every random-generator outcome",
 "A test cannot see IV reuse that happens only on a particular history, and cannot enumerate RNG outcomes such as an all-zero IV.",
 ["sources/lite_stream.cpp","sources/streams.cpp","sources/crypto.cpp"],
 [("generate_random + is_all_zeros loop before EncryptAndAuthenticate","sources/lite_stream.cpp")])
prop("C07","Oversized files are refused, never silently corrupted",
 "No read, write or truncation can reach a block number beyond the format's limit: such a request fails with an error and leaves the file's size and content unchanged. Offset and size arithmetic never wraps around or maps two different plaintext positions to the same stored position.",
 I,"all 64-bit offsets, lengths and sizes",
 "Tests never go beyond a few MB; the limits lie at 2^30/2^31 blocks.",
 ["sources/lite_stream.cpp","sources/streams.cpp"],
 [("MAX_BLOCKS / max_block_number checks","sources/lite_stream.cpp, sources/streams.cpp")])
prop("C08","Size padding is bounded, stable and transparent",
 "With a maximum padding size configured, each file is padded by an amount within that bound which depends only on the key and the file's identity, so reopening or querying the size of an existing file always agrees with the amount used when it was written; file content and reported size are unaffected by padding.",
 I,"all padding maxima, keys/ids, sizes",
 "Tests check one or two paddings.",
 ["sources/crypto.cpp","sources/lite_stream.cpp","sources/streams.cpp","sources/files.h"],
 [("compute_padding / PaddedStream / calculate_real_size","sources")])
prop("C09","Text encodings of ciphertext round-trip and reject garbage safely",
 "Encoding any byte string in the file-name alphabets (base32 and hex) and decoding it returns the same bytes, distinct inputs have distinct encodings, encodings contain only the documented alphabet, and decoding an arbitrary string either fails or yields a value without touching memory out of bounds.",
 I,"all byte strings up to the bound; all character strings for the decoders",
 "Round trip tests are random samples; malformed input space is not sampled.",
 ["sources/mystring.cpp","sources/mystring.h","sources/myutils.cpp","sources/myutils.h"],
 [("base32_encode/base32_decode/hexify/parse_hex","sources/mystring.cpp")])
prop("C11","Deterministic name encryption (AES-SIV) is RFC 5297 and authenticated",
 "Synthetic-IV encryption produces the RFC 5297 construction for every plaintext and header length, decrypting the result with the same header returns the plaintext, and decryption reports success only when the recomputed IV equals the stored one in all sixteen bytes.",
 I,"all plaintext/header lengths and contents within bounds; all forged IVs and ciphertexts",
 "Known-answer tests cover two vectors; block-boundary lengths and forged tags need all values.",
 ["sources/crypto.cpp","sources/crypto.h"],
 [("AES_SIV::s2v/encrypt_and_authenticate/decrypt_and_verify","sources/crypto.cpp")])
prop("C12","Key derivation follows HKDF for every output length",
 "Key derivation expands the same input key, salt and context into the output defined by RFC 5869 for every requested length, so that a shorter request is a prefix of a longer one with the same inputs, and requests beyond the permitted maximum are refused.",
 I,"all output lengths 0..N, salts present/absent",
 "Tests cover RFC vectors only.",
 ["sources/crypto.cpp"],[("hkdf/hkdf_expand","sources/crypto.cpp")])
prop("C13","Directory pages parse back to what was stored and never overrun",
 "Any directory page written to disk reads back as the same entries (name, id, type) and children; reading a page with arbitrary content either fails with a corruption error or yields entries that lie within the page and within the node limits.",
 I,"all entries with names up to the limit; arbitrary page bytes",
 "Tests only parse pages the code itself wrote.",
 ["sources/btree_dir.cpp","sources/btree_dir.h"],
 [("BtreeNode::from_buffer/to_buffer/read_node/write_node","sources/btree_dir.cpp")])
prop("C14","A directory behaves as a map from names to entries",
 "After any sequence of additions, removals and lookups, a full-format directory holds exactly the entries that a plain map would: adding succeeds iff the name is absent, removal returns the stored id and type iff present, iteration lists every entry once, and this still holds after flush and reload from storage. The on-disk search tree keeps its ordering, balance and occupancy invariants throughout.",
 H,"histories of add/remove/lookup/iterate/flush/reload, names in every order",
 "The randomised tree test samples a few shapes; split, borrow and merge at each position need all orders.",
 ["sources/btree_dir.cpp","sources/btree_dir.h","sources/files.h"],
 [("BtreeDirectory::add_entry_impl/remove_entry_impl/balance_up/find_helper","sources/btree_dir.cpp")])
prop("C15","Directory page allocation never hands out a live page",
 "Pages released by directory operations are recycled without ever giving the same page to two owners: at any time every page is either exactly one live tree node or on the free list exactly once, and the recorded count of free pages matches the list.",
 H,"all histories of page allocation/release/flush/reload",
 "Needs every interleaving of alloc and free.",
 ["sources/btree_dir.cpp"],[("allocate_page/deallocate_page","sources/btree_dir.cpp")])
prop("C16","File attributes survive a round trip through the header",
 "Mode, owner, group, link count and (when time storage is on) access, modification, change and birth times written to a full-format file are read back identically after flush and reopen, each setter changing only its own attribute (and the change time). Setting times applies exactly the given timestamps (or the current time) and sets the change time to the current time; a write or truncation, like adding or removing an entry of a directory, sets the modification and change time to it. A file object is only ever used as the file type its mode records. In both formats the operations which change attributes, names or sizes change exactly the attributes they are asked to, of the object named and of no other.",
 I,"all attribute values, both header layouts, all timestamps",
 "Tests check one or two values.",
 ["sources/files.cpp","sources/files.h"],
 [("FileBase::read_header/write_header/utimens/stat","sources/files.cpp")])
prop("C17","Encrypted file names decrypt to the original path",
 "For every path, translating it to its stored form and back component by component yields the original names, the directory structure is preserved, distinct names get distinct stored names, and every stored component respects the configured length limit with names over the threshold mapped to the long-name form.",
 I,"all paths within bounds, all thresholds, all translator kinds",
 "Tests use a handful of paths.",
 ["sources/lite_format.cpp","sources/lite_format.h"],
 [("NewStyleNameTranslator / LegacyNameTranslator / NoOpNameTranslator","sources/lite_format.cpp")])
prop("C18","Symbolic link targets round-trip and hostile ones are handled safely",
 "A symbolic link's target read back through the file system is the string originally stored, for every target; an arbitrary (corrupt or hostile) stored target leads to an error or some string, never to an out-of-bounds memory access or a crash.",
 I,"all targets within bounds; arbitrary stored target bytes",
 "Corrupt stored targets are never tested.",
 ["sources/lite_format.cpp"],[("encrypt_path_for_symlink/decrypt_path_from_symlink","sources/lite_format.cpp")])
prop("C19","Extended attribute name lists transform without overrun or loss",
 "Transforming the stored list of extended attribute names into the user-visible list (and back) keeps exactly the valid names in order, never writes beyond the caller's buffer, reports the size needed when asked for it, and reports a range error when the buffer is too small.",
 I,"all lists and buffer sizes within bounds",
 "Tests use fixed lists.",
 ["sources/xattr_name.cpp","sources/xattr_name.h","sources/lite_format.cpp","sources/files.cpp"],
 [("XattrNameConverter / transform_listxattr_result","sources")])
prop("C20","Extended attribute values round-trip with exact sizes",
 "A value stored in an extended attribute is returned unchanged with its exact length for every value and every buffer at least as large, a query with a null buffer returns the exact length, and a buffer that is too small gives a range error without being overrun; modified stored values are rejected.",
 I,"all values, buffer sizes and tampering within bounds",
 "Tests always read with an exactly sized buffer.",
 ["sources/lite_format.cpp","sources/files.cpp"],[("XattrCryptor / FileBase::getxattr/setxattr","sources")])
prop("C21","The open-file table keeps one live object per file",
 "At any time all opens of one file id share a single in-memory object, which stays alive while any opener holds it; closing the last holder flushes it before it can be dropped, and a file whose link count reached zero is deleted from storage exactly once, only after its last close, and is never resurrected.",
 H,"histories of open/create/close/unlink over several ids, beyond the cache limit",
 "Tests never cross the cache limit and never interleave closes and unlinks systematically.",
 ["sources/file_table_v2.cpp","sources/file_table_v2.h"],
 [("FileTable::open_as/create_as/close/decref","sources/file_table_v2.cpp")])
prop("C22","Namespace operations either take full effect or change nothing",
 "Creating, linking, unlinking, renaming and removing directories in the full format follows POSIX: a failing operation leaves every name and file as it was, a non-empty directory can be neither removed nor replaced, and link counts always equal the number of names referring to the file so that content disappears exactly when the last name does.",
 IH,"histories of create/mkdir/link/unlink/rmdir/rename on a small tree, with all argument aliasing",
 "The test suite uses a few happy paths; error paths and aliasing are not covered.",
 ["sources/full_format.cpp","sources/files.h"],
 [("vrmdir/vrename/vunlink/vlink/create","sources/full_format.cpp")])
prop("C23","Path resolution terminates and follows symbolic links correctly",
 "Resolving any path in the full format terminates with the object the path denotes, ENOENT when a component is missing, an error when a component which is not a directory has further ones after it, or ELOOP for link cycles; '.' and '..' components and relative links, in the middle of a path and in the targets of links, are honoured, and links nested up to eight deep (what POSIX guarantees) resolve. On a case-insensitive mount the canonical path reported for a path is the one under which its components are stored, or ENOENT, or ENAMETOOLONG when it does not fit the buffer.",
 I,"all small trees with symlinks, all paths within bounds",
 "Cycles and dot-dot mixtures are not tested.",
 ["sources/full_format.cpp"],[("generic_open/open_base/open_all/vgetpath","sources/full_format.cpp")])
prop("C24","The repository configuration opens only with the right password",
 "Encrypting repository parameters and decrypting them with the same password and key file returns identical parameters in every format version; a wrong password or key file, or any modification of the stored salt, key derivation costs, nonce, authentication tag or ciphertext, is refused rather than yielding different parameters. (The sizes and flags which the legacy format stores in the clear are taken as they are.)",
 I,"all parameter values; all single modifications; wrong password/keyfile",
 "Tests use one or two passwords.",
 ["sources/params_io.cpp"],[("encrypt/decrypt","sources/params_io.cpp")])
prop("C26","The long-name table mirrors the stored long names",
 "In the lite format every entry stored under a shortened long name has its full encrypted name recorded in its directory's table, and the record is removed when the entry is: create, mkdir, symlink, link, rename, unlink and rmdir succeed exactly when they would with short names and keep table and directory in step, and a failed operation leaves both as they were.",
 H,"all operation/long-short name combinations and failures of the underlying call",
 "Failures of the underlying call are not injected by tests.",
 ["sources/lite_format.cpp","sources/lite_long_name_lookup_table.cpp"],
 [("LongNameLookupTable / FuseHighLevelOps::process_possible_long_name","sources/lite_format.cpp")])
prop("C27","Directory listings show exactly the decryptable entries",
 "Listing a lite-format directory yields, for every stored entry whose name authenticates, exactly its plaintext name once, plus '.' and '..', and silently omits foreign, corrupt or internal entries rather than showing stale or encrypted names.",
 IH,"all sequences of valid/foreign/corrupt/internal stored entries",
 "Tests never place foreign entries between valid ones.",
 ["sources/lite_format.cpp","sources/lite_format.h"],[("DirectoryImpl::next","sources/lite_format.cpp")])
prop("C30","Concurrent operations behave as one after the other",
 "Two file system operations which run at the same time, on the same or on different files and directories, through any interleaving of their steps, give the results and leave the tree, contents and attributes of running them one after the other in some order; they never deadlock, crash, or touch memory of one another without synchronisation. Both formats, including two handles of one file.",
 ["schedules"],"all pairs of operations, all interleavings",
 "Tests run operations of the mounted file system one at a time.",
 ["sources/full_format.cpp","sources/lite_format.cpp","sources/file_table_v2.cpp","sources/files.h","sources/lock_guard.h"],
 [("FuseHighLevelOps::vrename","sources/full_format.cpp"),("FuseHighLevelOps::vwrite","sources/lite_format.cpp")])
prop("C31","Changing the long-name suffix keeps every entry",
 "After the long-name suffix of a lite-format repository is changed, a mount with the new suffix shows exactly the entries of before, at any depth, each stored long name ends in the new suffix and is recorded in its directory's table under it; an empty suffix is refused and changes nothing.",
 IH,"all pairs of suffixes, repository trees and orders in which directories list their entries",
 "No test changes the suffix of a repository with nested directories.",
 ["sources/lite_format.cpp","sources/lite_long_name_lookup_table.cpp"],[("change_long_name_suffix","sources/lite_format.cpp")])
prop("C32","The configuration of a repository is never lost or exposed",
 "Creating a repository stores the chosen parameters with fresh, distinct keys of full length, never in the clear, so that exactly the given password and key file open it, and never replaces a configuration that is there. Changing the password or the treatment of long names changes the stored configuration exactly when the command succeeds, and whichever system call fails, is cut short or is interrupted by a crash, the repository still opens with the old or the new secret and unchanged parameters. Printing the parameters leaves keys out unless asked for them.",
 ["inputs","crash_points","fault_sequences","configurations"],"all commands, secrets and options; all failing system calls; all crash points",
 "Tests do not run the commands, inject failures or crash.",
 ["sources/commands.cpp","sources/unix.cpp","sources/params_io.cpp"],
 [("ChangePasswordCommand::execute","sources/commands.cpp"),("CreateCommand::execute","sources/commands.cpp")])
prop("C33","A mounted file system follows its parameters and options",
 "Mounting with the right secret serves the repository with the sizes, name comparison, ownership, attribute support, verification and libfuse options that its configuration and the command line ask for, each option changing only what it stands for: names equal up to case or normalization are one file exactly when asked, altered data are readable only without verification, and inode numbers are passed on always for the full format and otherwise by option or file system type. A wrong secret, a missing or altered configuration, or an unknown option mounts nothing and changes nothing.",
 ["inputs","configurations"],"all combinations of format, parameters and options; all secrets; all changes of the configuration",
 "Tests do not mount through the command line with these combinations.",
 ["sources/commands.cpp","sources/internal_mount.cpp","sources/lite_format.cpp","sources/full_format.cpp"],
 [("MountCommand::build_internal_mount_data","sources/commands.cpp"),("make_fuse_high_level_ops","sources/internal_mount.cpp")])
prop("C34","What is stored follows the documented format, so repositories stay readable",
 "Everything a mounted file system stores (contents with holes and padding, metadata, times, directories, link targets, names short and long, the table of long names, attributes) is, byte for byte, the encoding of the documented format under the keys meant for each purpose, for every set of parameters of current and older repositories, and mounting again shows it unchanged; so a repository written by one release is read by another.",
 ["inputs","configurations"],"all contents and attribute values; all formats, sizes, paddings, long name thresholds and suffixes",
 "Tests write and read with the same code, so a change of both sides goes unnoticed.",
 ["sources/files.cpp","sources/streams.cpp","sources/lite_stream.cpp","sources/lite_format.cpp","sources/file_table_v2.cpp","sources/btree_dir.cpp","sources/xattr_name.cpp"],
 [("FileBase::FileBase","sources/files.cpp"),("AESGCMCryptStream::AESGCMCryptStream","sources/lite_stream.cpp")])
prop("C35","A full-format repository is mounted by one process at a time",
 "While the process recorded in the lock file of a full-format repository runs, whoever owns it, another mount is refused and leaves the lock as it is; a lock left by a process that is gone, or without a process number, is taken over. The mounted process is recorded in the lock file, which is removed when it unmounts.",
 ["inputs","histories"],"all states of the lock file and of the process it names",
 "No test mounts a repository twice or leaves a stale lock.",
 ["sources/full_format.cpp","sources/unix.cpp"],[("RepoLocker::open_lock_stream_checked","sources/full_format.cpp"),("OSService::is_process_running","sources/unix.cpp")])
prop("C36","Operations on the underlying storage act on the named object or report why not",
 "Every operation on the directory of a repository and on its open files is the POSIX operation of its name on the object of that path inside that directory, links not followed where an entry itself is meant, with the same result and effect. Whatever error the system reports, or if it writes less than asked for, the operation fails with that error, changes nothing else, leaves no descriptor open and is never taken for success or for the end of a directory.",
 ["inputs","fault_sequences"],"all operations, kinds of paths, open modes, arguments and error numbers",
 "Tests do not make system calls fail or write short.",
 ["sources/unix.cpp","sources/common_platform.cpp"],[("UnixFileStream::write","sources/unix.cpp"),("OSService::open_file_stream","sources/unix.cpp")])
prop("C37","A mount serves until it is asked to end or has been idle, and then ends in order",
 "A mounted file system keeps serving until SIGINT, SIGTERM or SIGHUP, an unmount request, the kernel closing or breaking the connection, or, if a maximum idle time is given, that time without any operation; never earlier, and then at once. However requests, signals and the timer interleave, every request begun is finished first, no thread waits for ever, aborts or outlives the session, everything set up is torn down exactly once, and the result reports a broken connection or a failed start.",
 ["schedules","fault_sequences","histories"],"all interleavings of requests, signals, timer and threads; all idle times and gaps",
 "Tests never run the mount loop; the orders that matter are races.",
 ["sources/fuse2_workaround.cpp","sources/resettable_timer.cpp","sources/fuse_hook.cpp","sources/internal_mount.cpp"],[("my_fuse_main","sources/fuse2_workaround.cpp"),("ResettableTimer::setTimePoint","sources/resettable_timer.cpp")])
prop("C38","What was completed or synchronised survives an abrupt end",
 "When the process is killed between operations, or power is lost after a file was synchronised, a fresh mount finds the result of every completed operation on objects that nobody holds open, and of a file held open the content and attributes as of its last successful flush, fsync or close. Nothing else is damaged, whatever was still unwritten elsewhere.",
 ["crash_points","histories","inputs"],"all operations with all arguments, then flush, fsync, close or nothing; which unsynchronised files a loss of power sets back",
 "Tests always close and unmount in order.",
 ["sources/files.h","sources/files.cpp","sources/file_table_v2.cpp","sources/full_format.cpp","sources/lite_format.cpp"],[("FileBase::fsync","sources/files.h"),("FileTable::close_internal","sources/file_table_v2.cpp")])
prop("C39","A failing storage makes operations fail, and nothing more",
 "When calls to the underlying storage fail, once or for some time, at any point of an operation, the process keeps running; the operation reports failure, or its full result is there and is stored once the storage works again; a flush reports success only if the data are stored. Objects the failed operation did not name, and the parts of a file it did not concern, remain readable and unchanged, now and after another mount; the file itself can be opened again.",
 ["fault_sequences","inputs"],"all operations, the position and duration of the failure",
 "Tests do not make the storage fail.",
 ["sources/file_table_v2.cpp","sources/streams.cpp","sources/files.cpp","sources/full_format.cpp","sources/lite_stream.cpp"],[("FileTable::close","sources/file_table_v2.cpp"),("HMACStream::flush","sources/streams.cpp")])
prop("C40","Logs are whole and keep secrets",
 "A message at or above the configured level appears as one complete, locked, flushed line even if composing it fails; a message below the level leaves no output. Calls are traced, with start and end, only at the most detailed level, and an unexpected failure of a call is logged at every level; neither changes the result of the call. Unless sensitive logging was requested, the log does not depend on the contents of files, the values of extended attributes, or other bytes that callbacks pass in buffers. Passwords and keys never get into the log, whatever command runs and whether it succeeds, and info prints keys only on request.",
 ["inputs","configurations","programs"],"all levels and messages, all callbacks with every outcome, all contents, passwords, both formats",
 "No test reads the log.",
 ["sources/logger.cpp","sources/fuse_tracer_v2.cpp","sources/fuse_high_level_ops_base.cpp","sources/commands.cpp"],[("Logger::log_v2","sources/logger.cpp"),("FuseTracer::print","sources/fuse_tracer_v2.cpp")])
prop("C28","Every failure reaches the kernel as a negative errno",
 "Whatever exception an operation raises, the file system callback returns the corresponding negative error number (EPERM for unknown failures) and never lets an exception escape or reports success. Otherwise the callback runs exactly the operation it stands for, once, with the arguments it was given, and returns that operation's own result, through every wrapper of the operation table.",
 I,"all exception kinds and error numbers, all operations",
 "Only a few error paths are hit by tests.",
 ["sources/fuse_high_level_ops_base.cpp","sources/fuse_tracer_v2.h","sources/exceptions.h"],
 [("FuseTracer::traced_call","sources/fuse_tracer_v2.h")])
prop("C29","Per-thread objects are never shared between owners",
 "A per-thread slot returns the object created by its own instance: after an instance is destroyed and its slot number reused, a new instance never sees the previous instance's objects, and every created object is destroyed.",
 H,"all create/get/destroy histories",
 "Slot reuse orders are not sampled.",
 ["sources/thread_local.cpp","sources/thread_local.h"],[("ThreadLocalBase index reuse","sources/thread_local.cpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
