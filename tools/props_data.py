TRUST = " Trusts: clang's IR for the shipped configuration, the models of external libraries, abstraction of heap reached through escaped pointers by field."
FAULT = "The suite never makes an inner call fail at a chosen point; it exercises a handful of success paths and a few argument errors."

prop("P01", "Atomic sections are balanced and only the outermost close commits",
     "Every library operation leaves the number of open atomic sections as it found it on every return path, success or failure, and a command never reports success with a section it opened still open. "
     "Inside a section nothing is committed: only closing the outermost section commits the backend transaction, and it advances the database revision exactly when the section changed a message. "
     "Closing a section that is not open is refused and changes nothing, and backend transactions are driven by nothing but the section, upgrade and close operations.",
     ["histories", "fault_sequences"], "all sequences of begin/end and of inner operations, with any operation failing (by status or by exception)",
     "Sequences and failure points are unbounded; the suite nests sections in one test and never fails an operation inside one.",
     ["lib/database.cc", "lib/add-message.cc", "lib/remove-message.cc", "lib/message.cc", "notmuch-new.c", "notmuch-reindex.c", "notmuch-insert.c"],
     [("begin_atomic/end_atomic nesting counter", "lib/database.cc:notmuch_database_begin_atomic, notmuch_database_end_atomic"), ("sections around index changes", "lib/add-message.cc:notmuch_database_index_file")],
     state=[("atomic_nesting", "number of open sections", "lib/database-private.h"), ("atomic_dirty", "the open section changed a message", "lib/database-private.h")],
     note="All paths of every library operation and command that reaches begin/end, over an abstract depth counter; the begin/end implementations are checked for their counter arithmetic." + TRUST)

prop("P03", "A read-only handle never writes, and every mutating operation refuses it",
     "An operation given a database opened read-only never reaches a backend write, whatever the database contains and whatever fails. "
     "Every operation whose effect is to change the index reports failure on such a handle instead of success, and opening a database read-only creates, locks or converts nothing.",
     ["inputs", "histories"], "all library operations, all databases, all argument values on a read-only handle",
     "Tests try a few mutators on a read-only handle; the guarantee covers every operation and every internal path to a write.",
     ["lib/database.cc", "lib/message.cc", "lib/message-property.cc", "lib/config.cc", "lib/directory.cc", "lib/open.cc", "lib/remove-message.cc"],
     [("_notmuch_database_ensure_writable", "lib/database.cc"), ("writable backend pointer is null when read-only", "lib/open.cc")],
     note="Exhaustive over the library's operations under the assumption that the writable backend pointer is null." + TRUST)

prop("P04", "Backend exceptions never escape the C API",
     "Whatever exception the search backend raises while a library operation runs, the operation returns to its C caller normally; no exception propagates through a public library function.",
     ["fault_sequences", "schedules"], "every backend call that may raise, at every point of every public operation (concurrent modification, corruption, disk full, closed database)",
     "A test would need to make the backend raise at each call of each operation; the suite provokes exceptions in only a few operations by closing the handle or corrupting the database.",
     ["lib/*.cc"], [("try/catch blocks at the API boundary", "lib/message.cc, lib/query.cc, lib/database.cc, lib/directory.cc, lib/config.cc, lib/message-property.cc, lib/thread.cc, lib/add-message.cc, lib/remove-message.cc, lib/open.cc")],
     note="Every public function, every path, every Xapian call that reads or writes the database assumed to raise Xapian::Error; handler types are matched. std::bad_alloc is out of scope." + TRUST)

prop("P05", "The library never turns an internal failure into success",
     "When a step of a library operation fails with an error from the index backend or from another library operation, the operation as a whole does not report success. "
     "A handler that intercepts a backend exception makes the operation report failure.",
     ["fault_sequences"], "each failing step, at each call site, on each path of each status-returning library function", FAULT,
     ["lib/*.cc", "lib/*.c"], [("status propagation", "lib/add-message.cc, lib/message.cc, lib/database.cc, lib/index.cc, lib/open.cc")],
     note="For every status-returning library function each fallible callee and each exception handler is made to fail once in the abstract; deliberate best-effort steps are listed with reasons in the rule." + TRUST)

prop("P06", "Every change to a message is written, stamped with a fresh revision",
     "When a library operation that changes a message's terms, values or data reports success on an unfrozen message, the changed record has been written to the index. "
     "A changed message is never written without first being stamped with a newly drawn revision number, and the mark that a message needs writing is neither dropped before it is written nor left behind afterwards, so unchanged messages are not rewritten.",
     ["inputs", "histories", "fault_sequences"], "every library operation, every path, every message object it creates or is given",
     "Tests compare the effect of a few operations; a missed write or stamp shows only for the particular path (linking to children, property removal, ghost messages) that forgot it.",
     ["lib/message.cc", "lib/add-message.cc", "lib/message-property.cc", "lib/directory.cc", "lib/remove-message.cc"],
     [("modified flag and _notmuch_message_sync", "lib/message.cc:_notmuch_message_sync"), ("revision stamp", "lib/message.cc:_notmuch_message_upgrade_last_mod, lib/database.cc:_notmuch_database_new_revision")],
     state=[("modified", "the message must be written", "lib/message.cc:struct _notmuch_message"), ("revision", "last revision number drawn", "lib/database-private.h")],
     note="One document, chosen nondeterministically at its first change, is followed through each public operation on all paths." + TRUST)

prop("P07", "Freezing defers writes and thawing performs them exactly when it should",
     "While a message is frozen no tag or property operation writes it to the index, at any nesting depth; each freeze raises the depth by one and each thaw lowers it by one. "
     "Every change made while frozen stays marked until the thaw that brings the depth to zero, and that thaw reports success only if it wrote the change. "
     "Thawing a message that is not frozen is refused, and operations that freeze a message internally leave its depth as they found it.",
     ["histories", "fault_sequences"], "all sequences of freeze, thaw and change operations, with any of them failing",
     "Nesting and interleaving are unbounded; the suite freezes once around one batch of tag changes.",
     ["lib/message.cc", "lib/message-property.cc"], [("frozen counter", "lib/message.cc:notmuch_message_freeze, notmuch_message_thaw")],
     state=[("frozen", "freeze depth", "lib/message.cc:struct _notmuch_message")],
     note="Each public message operation is analysed from depths 0, 1 and 2, with and without pending changes; the transition rules of the counter are the inductive step to any depth. Renaming files and reindexing are exempt: their effect on disk has already happened." + TRUST)

prop("P17", "Every file, stream and library object acquired is released exactly once",
     "On every path on which a function returns, each file descriptor, stdio, directory or compressed stream, mail-parser object, hash table, key file, checksum, string array and string list it acquired has been released, or handed to its caller or to an object that owns it. "
     "Nothing is released twice, released with the wrong function, or used after its release; heap buffers are never freed twice or used after being freed.",
     ["fault_sequences", "inputs"], "every acquisition in every function, on every path including each failure path", FAULT,
     ["lib/*.cc", "lib/*.c", "util/*.c", "notmuch*.c", "mime-node.c", "gmime-filter-reply.c", "hooks.c", "tag-util.c"],
     [("cleanup paths", "lib/sha1.c, lib/message-file.c, lib/index.cc, util/gmime-extra.c, util/zlib-extra.c, notmuch-new.c, mime-node.c, notmuch-dump.c, notmuch-restore.c")],
     note="One acquired resource per path is followed through all functions it is passed to. Process exit releases everything, so main and the command entry points are not judged for leaks, nor are exceptional exits." + TRUST)

prop("P18", "Nothing is used or freed after it, or the object that owns it, was freed",
     "In the library and the commands no object of the hierarchical allocator is dereferenced, passed on or freed again once it was freed, and no allocation or borrowed result is used after the object it belongs to was freed. "
     "No function returns an object it has freed.",
     ["inputs", "fault_sequences", "histories"], "every allocation and every free, on every path",
     "Use of freed memory shows only on the path that frees early, often without a crash; the suite does not reach most failure paths.",
     ["lib/*.cc", "lib/*.c", "notmuch*.c", "mime-node.c", "hooks.c", "tag-util.c"],
     [("object ownership", "lib/message.cc, lib/thread.cc, lib/directory.cc, lib/query.cc, notmuch-new.c, notmuch-show.c, mime-node.c")],
     note="One object (or one allocation with its owner) per path, followed across calls. File name and tag strings obtained from iterators are judged by their real owner, the message or directory, not by the iterator." + TRUST)

prop("P21", "Delivery is durable before it is visible, and indexed only once durable",
     "Insert creates the message file under a fresh name it refuses to share, copies all of the input to it, and forces it to disk before moving it into place; nothing is written to it afterwards. "
     "The folder is forced to disk before the message is indexed, what is indexed is the file that was delivered, and success is reported only for a durably delivered, indexed message (or one kept on request despite an indexing failure). "
     "Incomplete or empty input is never delivered, however the copy is interrupted.",
     ["crash_points", "fault_sequences", "schedules"], "every system call failing, every signal arrival during the copy, every crash point between steps",
     "Durability order is invisible without crashing the machine, and the suite does not fail the individual system calls.",
     ["notmuch-insert.c"], [("maildir delivery", "notmuch-insert.c:maildir_write_tmp, maildir_write_new, sync_dir")],
     note="Typestate of the delivered file on all paths of the insert command, each system call succeeding or failing, signal flag changing at any read." + TRUST)

prop("P22", "Failed delivery leaves nothing behind; kept mail is never removed",
     "When insert ends with failure and was not asked to keep the message, neither a temporary file nor the delivered file remains. "
     "It removes no file but the one it is delivering, never removes a delivered message it was asked to keep, and then does not report failure merely because indexing failed. "
     "Files and folders it creates are private to the user unless world-readable delivery was requested.",
     ["fault_sequences", "inputs"], "every system call and library call failing, on each path to exit, with and without --keep",
     "Tests exercise a handful of failures with chmod; cleanup after each other failing step is untested.",
     ["notmuch-insert.c"], [("cleanup of the delivered file", "notmuch-insert.c:notmuch_insert_command, maildir_write_tmp, maildir_write_new")],
     note="Same typestate as P21, judged at every exit of the command." + TRUST)

prop("P26", "A command that could not do its work exits with failure",
     "If any library operation a command depends on reports failure, or the changes it made could not be committed, the command does not exit with success. "
     "Commands that change the index close it explicitly and check the outcome before exiting.",
     ["fault_sequences"], "each status-returning library call in each command, on each path to the command's exit", FAULT,
     ["notmuch*.c"], [("command exit status", "notmuch.c:main and the notmuch_*_command functions"), ("closing the database", "notmuch-new.c, notmuch-tag.c, notmuch-restore.c, notmuch-reindex.c, notmuch-insert.c")],
     note="Each reachable status-returning library call of each command is made to fail once in the abstract and the paths to the exit status explored; best-effort steps are listed with reasons in the rule." + TRUST)

prop("P08", "A message object shows the changes made through it",
     "When a library operation on a message object reports success, that object answers with what the operation left behind: "
     "if it changed the tags, properties, file names, thread or parent of the message, no answer cached before the change is given after it.",
     ["histories", "inputs"], "every public operation on a message object, every path, with any of the cached answers asked for before",
     "A stale answer shows only when the same object is asked before and after the change; the suite mostly runs one command per process and re-reads the message.",
     ["lib/message.cc", "lib/message-property.cc"],
     [("cached metadata and _notmuch_message_invalidate_metadata", "lib/message.cc:_notmuch_message_invalidate_metadata, _notmuch_message_ensure_metadata")],
     state=[("tag_list, property_map, filename_list, thread_id, in_reply_to", "answers kept in the message object", "lib/message.cc:struct _notmuch_message")],
     note="Every public operation on a message, for each kind of cached answer; a change of a term makes the fields for its prefix stale, clearing a field makes it fresh. Changes made through another object are not in the statement." + TRUST)

prop("P09", "Only the operations meant to change files do, and stored mail is never touched",
     "No operation creates, modifies, renames or deletes a file except where that is what it is for: insert delivers into its own new file, compaction swaps the index, dump writes its output, setup and config rewrite the configuration file, and maildir flag synchronization renames a message. "
     "The path of a message file known to the index is never opened for writing, truncated or removed, and its only rename is to the name computed from its maildir flags. "
     "Commands and library operations outside those jobs cannot reach a file-changing system call, and a file opened for writing is created exclusively, never one that already existed.",
     ["inputs", "histories"], "every command, library operation and call site, for all mail stores and all arguments",
     "A test sees only that particular files survived a particular run; that no path of any operation can remove or overwrite mail needs every call site.",
     ["notmuch*.c", "lib/*.cc", "lib/*.c", "util/*.c"], [("delivery", "notmuch-insert.c:maildir_mktemp, maildir_write_new"), ("flag synchronization", "lib/message.cc:notmuch_message_tags_to_maildir_flags"), ("dump output", "notmuch-dump.c:notmuch_database_dump"), ("compaction", "lib/database.cc:notmuch_database_compact_db")],
     note="All call sites of file-changing C library, zlib and GLib primitives; path arguments traced interprocedurally to their origins; call-graph reachability for each command and library operation. What Xapian and hook programs do to files is outside." + TRUST)

prop("P12", "The library leaves its host process alone and shares no state between handles",
     "No library operation writes to the host program's standard output or reads its standard input, changes its working directory, environment, locale, signal handling, timers or resource limits, starts processes, or ends the program other than for a broken internal invariant or exhausted memory. "
     "It keeps no mutable state outside its objects beyond one-time initialization, and uses none of the C library's hidden static buffers, so independent handles can be used from different threads.",
     ["inputs", "schedules"], "all public operations, all arguments, any interleaving of threads using different handles",
     "Tests run one handle in one process and look at results, not at side effects on the process or at interference between handles.",
     ["lib/*.cc", "lib/*.c", "util/*.c", "parse-time-string/*.c"], [("public API", "lib/notmuch.h"), ("upgrade progress timer (documented exception)", "lib/database.cc:notmuch_database_upgrade")],
     note="Every function reachable from the public API is scanned for process-affecting calls and for writes to static storage." + TRUST)

prop("P23", "notmuch new never forgets mail it failed to look at",
     "A directory that could not be read or examined completely does not get its modification time recorded, and messages are removed from the index only after a scan in which nothing failed, so the next run looks again (single files that cannot be opened or are not mail are reported and passed over). "
     "The time recorded is the one read before the directory was listed, and it is not recorded while it equals the current time. "
     "A directory is never skipped when a full scan is requested or when its modification time differs from the recorded one. "
     "New files are indexed before vanished ones are removed, and times are recorded last.",
     ["schedules", "fault_sequences", "histories"], "mail arriving or being renamed at any moment of a run, and any step failing",
     "The race between a scan and a delivery, and failures in the middle of a scan, cannot be scheduled from the shell tests.",
     ["notmuch-new.c", "lib/directory.cc"], [("scan", "notmuch-new.c:add_files"), ("removal and time stamps", "notmuch-new.c:notmuch_new_command"), ("recorded time", "lib/directory.cc:notmuch_directory_set_mtime")],
     note="The scan function is explored over abstract relations between the directory's time, the recorded time and the current time; the command over every failing call." + TRUST)

prop("P24", "A dump file is complete on disk before it replaces anything",
     "When dump is given an output file, the destination is replaced only by renaming a temporary file created beside it, after everything was written, flushed, synchronized to disk and closed without error. "
     "If any step fails, dump reports failure, the destination keeps its previous content and the temporary file is removed. An identifier or tag that could not be encoded is never silently left out of a dump that reports success.",
     ["crash_points", "fault_sequences"], "every system and library call failing, a crash at any point", "The suite dumps to a file a few times, always successfully.",
     ["notmuch-dump.c"], [("dump output", "notmuch-dump.c:notmuch_database_dump, database_dump_file")],
     note="Typestate of the output file over all paths with each call made to fail; fsync gives what the system promises. Output to standard output is exempt." + TRUST)

prop("P27", "Structured output is well formed on every path",
     "Whatever the messages contain and whichever options are given, search, address, show and reply print structured output whose lists and maps nest correctly: keys appear only in maps and are followed by exactly one value, nothing is closed that was not opened, nothing follows the end of the output. "
     "When the command reports success nothing is left open.",
     ["inputs"], "all messages (missing headers, failed decryption, odd MIME structure), all formats, versions and options",
     "Tests compare the output of sample messages; the branches for absent headers, signatures, certificates or names are reached by few of them.",
     ["notmuch-search.c", "notmuch-show.c", "notmuch-reply.c", "sprinter.h"], [("structure printer", "sprinter.h:struct sprinter"), ("message output", "notmuch-show.c:format_part_sprinter, format_headers_sprinter"), ("search output", "notmuch-search.c:do_search_threads")],
     note="A grammar automaton over the printer's calls along all paths. The number of structures a MIME part closes after its children is counted at run time; that loop's count and the number of children are trusted, the rest of the part printer is checked." + TRUST)

prop("P29", "Hooks run exactly when they should, and nothing else is executed",
     "No program is started other than the hooks of the configured hook directory, the external helper for an unknown command, and help's manual pager. "
     "pre-new runs before anything is indexed and its failure stops the command; post-new and post-insert run only after the work succeeded, with the index committed and not held open for writing; --no-hooks runs none. "
     "A hook that fails or is killed is reported as failure, and the child process never returns into the command.",
     ["inputs", "fault_sequences"], "all paths of all commands, hooks absent, failing, killed by a signal, fork or wait failing",
     "Tests run hooks that succeed or exit 13 and check a marker file; order against lock and failure, and failures of the process calls, are not sampled.",
     ["hooks.c", "notmuch-new.c", "notmuch-insert.c", "notmuch-reindex.c", "notmuch.c"], [("hook execution", "hooks.c:notmuch_run_hook"), ("new", "notmuch-new.c:notmuch_new_command"), ("insert", "notmuch-insert.c:notmuch_insert_command")],
     note="Call-site table of process-starting primitives, path origins, and typestate of the commands around the hook calls." + TRUST)

prop("P30", "Signal handlers are safe and an interrupt stops at a message boundary",
     "A signal handler does nothing but async-signal-safe calls and stores to signal-safe flags, and a flag once set is never cleared before it is acted upon. "
     "After SIGINT, new, tag and reindex start work on no further message, run no hook and exit with failure, leaving the index consistent.",
     ["schedules"], "a signal arriving at any instruction", "Tests send a signal at one point of one command at most.",
     ["notmuch-new.c", "notmuch-tag.c", "notmuch-reindex.c", "notmuch-insert.c", "lib/database.cc"], [("handlers", "notmuch-new.c:handle_sigint, notmuch-tag.c:handle_sigint, notmuch-reindex.c:handle_sigint, notmuch-insert.c:handle_sigint, lib/database.cc:handle_sigalrm")],
     note="Handlers are found from the registrations and their call closures checked; the command loops are explored with the flag becoming true at any read." + TRUST)
prop("P19", "Decryption follows the decryption policy",
     "With policy false nothing is decrypted. With auto only the session key stored for that message is used, never a secret key. "
     "Session keys are asked of the backend and stored only under the policy that documents it (true when indexing, stash when showing); "
     "a stored session key is dropped exactly when reindexing with policy false. index.decryption records what happened (success only if every part tried was decrypted, failure only if one was not), "
     "and a part is marked decrypted only when it was. The option words and the index.decrypt words select the documented policies; the default is auto.",
     ["inputs"], "every policy, every path of indexing, reindexing, inserting, showing and replying", "Tests use one key ring and a few messages; an ill-timed secret-key operation or a missing clear goes unseen.",
     ["util/crypto.c", "lib/index.cc", "lib/indexopts.c", "lib/message.cc", "mime-node.c", "notmuch-show.c", "notmuch-reply.c"],
     [("decryption", "util/crypto.c:_notmuch_crypto_decrypt"), ("indexing", "lib/index.cc:_index_encrypted_mime_part"), ("reindexing", "lib/message.cc:notmuch_message_reindex"), ("policy words", "lib/indexopts.c:notmuch_database_get_default_indexopts"), ("showing", "mime-node.c:node_decrypt_and_verify")],
     note="Explored once per policy value, with the policy fixed at every read of it. What the mail library does with the flags and keys it is given is trusted." + TRUST)
prop("P20", "What is said of signatures and encryption is what was established",
     "The signature, encryption and protected subject reported for a whole message come only from layers enclosing its whole payload; a signature is reported as encrypted iff it was inside the encryption; the status is never lowered. "
     "A signature is reported good only if its verification found neither a bad signature nor an error, and every error is reported by its own name; the signer is identified only for good signatures, and named only by names the key fully vouches for. "
     "A part is reported decrypted only if it was, a message fully encrypted only if it was as a whole.",
     ["inputs"], "every nesting of parts (by state), every signature status bit, every validity, every decryption outcome", "Tests hold a handful of messages made with one test key.",
     ["util/crypto.c", "mime-node.c", "notmuch-show.c", "util/gmime-extra.c"],
     [("state of the message", "util/crypto.c:_notmuch_message_crypto_potential_payload, _notmuch_message_crypto_potential_sig_list, _notmuch_message_crypto_successful_decryption"), ("reporting", "notmuch-show.c:format_part_sigstatus_sprinter, format_part_sprinter, format_headers_sprinter"), ("names", "util/gmime-extra.c:g_mime_certificate_get_valid_userid")],
     state=[("payload_encountered, decryption_status, sig_list, signature_encrypted", "what is known of the whole message", "util/crypto.h:_notmuch_message_crypto")],
     note="The functions keeping the state are run from each state it can be in, the reporting functions from each status; the mail library's own verification is trusted." + TRUST)

prop("P15", "Compacting a database never loses it",
     "A compaction that reports success has put the compacted database where the original was; until then the original exists, in place or at the backup path, and a compaction that fails leaves it (or puts it back) in its place. "
     "The original is moved only once the compacted copy is complete, never over something that exists; it is removed only after the copy is in place and only when no backup was asked for; nothing else is removed but an earlier unfinished copy.",
     ["faults", "crash points"], "every failing step, every crash point between steps (by order), with and without a backup", "Tests compact a database where no step fails.",
     ["lib/database.cc"],
     [("steps", "lib/database.cc:notmuch_database_compact_db"), ("removal", "lib/database.cc:rmtree")],
     note="The backend's compaction is trusted to write a complete copy or throw." + TRUST)
prop("P16", "A format upgrade happens completely or not at all",
     "An upgrade changes the database only inside one transaction, which is committed only if every step succeeded and together with the record of the new version and features. "
     "An upgrade that fails - by status or by exception, before, in or at the end of the transaction - reports it, leaves no transaction open, and leaves the handle working with the format the database has; the progress timer and its handler are gone afterwards in every case.",
     ["faults", "crash points"], "every set of missing features, every failing step", "Tests upgrade one old database once, successfully.",
     ["lib/database.cc"],
     [("transaction", "lib/database.cc:notmuch_database_upgrade"), ("recorded format", "lib/database.cc:_notmuch_database_print_features"), ("timer", "lib/database.cc:handle_sigalrm")],
     state=[("features", "the format the handle works with", "lib/database-private.h:_notmuch_database")],
     note="The backend's transactions are trusted to be atomic; commit is modelled as closing the transaction even when it fails." + TRUST)
prop("P38", "Missing headers, parts and values are never used as if they were there",
     "A value that may be missing - a header, MIME part, parameter, certificate attribute, environment variable, search result, or list that could not be read - is never dereferenced or passed where a value is needed, however far it travels: "
     "through results of other functions, structure fields and arguments. So no message, configuration or environment crashes notmuch by leaving something out.",
     ["inputs", "faults"], "every message, configuration and environment lacking any one of these", "Tests hold a few malformed messages; each combination of what is missing and who asks for it is a separate case.",
     ["lib/message-file.c", "lib/index.cc", "lib/open.cc", "lib/message.cc", "lib/messages.c", "lib/string-map.c", "mime-node.c", "notmuch-show.c", "notmuch-reply.c", "notmuch-search.c", "notmuch-restore.c", "util/repair.c", "util/gmime-extra.c"],
     [("sources", "lib/message-file.c:_notmuch_message_file_get_header, lib/open.cc:_xdg_dir, mime-node.c:mime_node_child"), ("uses", "notmuch-show.c:format_part_sprinter, notmuch-reply.c:guess_from_in_received_headers, lib/add-message.cc:parse_references")],
     note="What can be missing starts from a table of libc, GLib, GMime and notmuch functions and is extended to a fixpoint over results and fields. GMime's own functions are taken to accept a missing object, as they check. Memory exhaustion is out of scope. One missing value is followed per path." + TRUST)

# ---------------- not decidable by static analysis ----------------
prop("N01", "Search returns exactly the messages matching the query",
     "For every query and every database, the messages returned are exactly those whose indexed fields satisfy the query.",
     ["inputs", "histories"], "all queries and databases", "Only sampled queries are tested.",
     ["lib/query.cc", "lib/parse-sexp.cc"], [("query translation", "lib/query.cc")],
     na="depends on the search backend's semantics and on the values in the database; no static argument over notmuch's source can bound them")
prop("N02", "Thread assignment is independent of the order messages arrive",
     "Two databases built from the same messages in different orders group them into the same threads.",
     ["histories"], "all arrival orders of all message sets", "Only a few orders are tested.",
     ["lib/add-message.cc", "lib/thread.cc"], [("thread linking", "lib/add-message.cc:_notmuch_database_link_message")],
     na="relational property over unbounded histories of database contents; deciding it needs a model of the index state, not facts of the source")
prop("N03", "Date expressions denote the documented interval",
     "Every accepted date expression is converted to the interval the documentation gives for it, in every time zone.",
     ["inputs"], "all expressions, reference times and zones", "Only sampled expressions are tested.",
     ["parse-time-string/parse-time-string.c"], [("parser", "parse-time-string/parse-time-string.c")],
     na="a value-level property of calendar arithmetic delegated to libc; static analysis of the source cannot establish the numeric results")
prop("N04", "Tag dumps round-trip",
     "Restoring a dump into the database it was made from reproduces exactly the tags, properties and configuration it held.",
     ["inputs", "histories"], "all message ids, tag names and values", "Only sampled names are tested.",
     ["util/hex-escape.c", "notmuch-dump.c", "notmuch-restore.c"], [("escaping", "util/hex-escape.c")],
     na="equality of encoder and decoder over all byte strings is a functional-equivalence claim about computed values; only the alphabet and bounds side of it is decidable from the source")
prop("N05", "A crash leaves the index as it was at the last commit",
     "After a crash at any moment the database opens and shows exactly the state of its last commit.",
     ["crash_points"], "all crash points", "Tests do not crash the process inside the backend.",
     ["lib/database.cc"], [("backend transactions", "lib/database.cc:notmuch_database_begin_atomic")],
     na="the on-disk protocol is the backend library's; its source is not part of this repository")
prop("N06", "The Emacs interface shows what the command line reports",
     "Every message and tag shown by the Emacs front end equals what the command line prints for the same query.",
     ["inputs", "histories"], "all queries and messages", "Only sampled screens are compared.",
     ["emacs/*.el"], [("display", "emacs/notmuch-show.el")],
     na="depends on the dynamic behaviour of Emacs Lisp rendering code; no static analysis of it is available here")
