c('C10', DIFF, 'Signatures over planted digests of every length relation to n judged by the FIPS equation; tiny curves exercise every key and the r=0/s=0 retries.')
c('C11', DIFF, 'Verdict on oracle-built and altered signatures compared with the FIPS 186-4 equation; all pairs (r,s) on tiny curves; infinity cases constructed.')
c('C12', DIFF, 'Exact accept/reject language of the signature codec over boundary halves, all lengths and altered characters, under ASan with exact-size buffers.')
c('C14', DIFF, 'Ciphertexts opened by the oracle with the private key; freshness of C; decryption of oracle-built ciphertexts; refusals for mixed groups.')
c('C13', 'LD_PRELOAD entropy shim with byte-exact fault injection; statistical monitors over draws and recovered nonces; freshness monitor across threads and forks', 'Faults at every byte position of the entropy stream; nonces are recovered from signatures with the known key.', 'fault_enumeration')
c('C15', 'model-based runtime monitor: full state dump of every live object after each operation of random histories, under ASan/UBSan', 'The destination takes the exact value, every other live object keeps its value, aliasing included.')
c('C16', 'AddressSanitizer, UBSan, LeakSanitizer, range-checked GMP entry points and valgrind memcheck over recorded histories', 'Replays histories of the other checks plus lifetime histories under memory-error monitors and per-history heap accounting.')
c('C17', 'ThreadSanitizer plus result comparison with a serial run', 'Threads with own objects, first use of moduli and entropy, shared read-only inputs; results compared with serial execution; races reported by the detector.')
c('C18', 'allocator interposition: every released block is inspected before it returns to the allocator', 'Needle search and full-overwrite check on every free/realloc of big-number storage with safe-clean enabled, at -O0..-O3.')
c('C19', 'compiler call/store instrumentation; trace comparison between scalars', 'Order and number of outermost additions, doublings, swaps, and stores within swaps, compared between scalars of each route.')
c('C20', 'sanitized execution of the Python extension; in-process differential oracle over Python integers', 'Every documented operation of the module on tiny, generated and named curves of all forms and moduli up to 1024 bits, judged value by value; the extension and C library run under ASan and UBSan.')
c('C21', 'ASan/UBSan interpreter, reference-count and allocation-growth monitors, stateful lifetime histories', 'Calls on pools of good, blank, foreign and hostile objects may only raise; reference counts of arguments, per-call heap growth, object identity after drops and hostile hash modules are watched.')
c('C22', 'differential monitor inside an instrumented Go process: real ecgo calls under ASan/UBSan, answers judged by an independent reference, arguments re-read after each call', 'Histories over elements, curves, points, signatures and ciphertexts with negative, huge and boundary integers, re-used receivers, damaged encodings, NULs, mismatched operands.')
c('C23', 'compiler-instrumented cgo entries that force complete garbage collections into every C call, AddressSanitizer, Go race detector, C heap accounting', 'Temporaries as operands with two collections and finalizers at each C entry; goroutines with shared keys, curves and scheme; heap size over repeated histories; results against the reference.')
c('C24', 'sanitized runs of the example programs; every file judged by an independent implementation of its format and cryptography', 'Tutorial pipelines over all named curves, cross-reading and cross-writing, tampering with keys, messages and signatures, unusable files and arguments.')
c('C25', 'AddressSanitizer, UBSan and LeakSanitizer on the importers under structured mutation, with an independent DER/point validator as oracle', 'Accepted objects must be consistent and re-export canonically; everything else must end in an error without crash, hang or leak.')
