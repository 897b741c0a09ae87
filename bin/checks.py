"""What is built and run for each property."""
LIB = 'pwned-lib'
# functions of the C library that the controlled scheduler replaces at link time
WRAPS = ['-Wl,--wrap=' + f for f in '''pthread_create pthread_join pthread_detach pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
    pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_once
    pthread_setschedparam pthread_getschedparam pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
    get_nprocs getchar getchar_unlocked getc fgetc __uflow read sched_yield nanosleep usleep free __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort
    epoll_wait epoll_ctl clock_gettime timerfd_create fopen64 fopen fclose write writev stat statx unlink remove rename unlinkat open open64 access'''.split()]
SCHED_OWN = dict(own=['harness/sched.cpp', 'harness/scenarios.cpp', 'rt/mcrt.cpp'], flavour='sched',
                 file_flavour={'harness/sched.cpp': 'notsan', 'rt/mcrt.cpp': 'notsan'}, link=WRAPS)
EXES = {
    'sched': dict(SCHED_OWN, repo=[LIB], repo_files=['pwned-converter-cli/convertoperation.cpp', 'pwned-merger-cli/mergeoperation.cpp']),
    'schedconvert': dict(SCHED_OWN, repo=[LIB, 'pwned-converter-cli'], repo_files=['pwned-merger-cli/mergeoperation.cpp'], tool_dirs=['pwned-converter-cli']),
    'schedmerge': dict(SCHED_OWN, repo=[LIB, 'pwned-merger-cli'], repo_files=['pwned-converter-cli/convertoperation.cpp'], tool_dirs=['pwned-merger-cli']),
    'schedserver': dict(own=['harness/schedserver.cpp', 'harness/servescen.cpp', 'rt/mcrt.cpp'], flavour='sched', file_flavour={'harness/schedserver.cpp': 'notsan', 'rt/mcrt.cpp': 'notsan'}, link=WRAPS,
                        repo=[LIB, 'pwned-server'], tool_dirs=['pwned-server']),
    'inspector': dict(own=['harness/inspector.cpp'], repo=[LIB], flavour='asan'),
    'codec': dict(own=['harness/codec.cpp'], repo=[LIB], flavour='asan'),
    'reader': dict(own=['harness/reader.cpp'], repo=[LIB], flavour='asan'),
    'uri': dict(own=['harness/uri.cpp'], repo_files=['pwned-server/uri.cpp'], flavour='notsan'),
    'markov': dict(own=['harness/markov.cpp'], repo=[LIB], flavour='asan'),
    'tools': dict(own=['harness/tools.cpp'], flavour='notsan'),
    'faults': dict(own=['harness/faults.cpp'], flavour='notsan'),
    'term': dict(own=['harness/term.cpp'], repo=[LIB], flavour='notsan'),
    'http': dict(own=['harness/http.cpp'], repo=[LIB, 'pwned-server'], tool_dirs=['pwned-server'], flavour='asan', link=['-static-libstdc++', '-Wl,--wrap=clock_gettime', '-Wl,--wrap=timerfd_create'] + ['-Wl,--wrap=' + f for f in ('accept', 'recv', 'send', 'recvmsg', 'sendmsg', 'shutdown', 'read')]),
    'cmdline': dict(own=['harness/cmdline.cpp'], flavour='notsan'),
    'mergetool': dict(own=['harness/mergetool.cpp'], repo=[LIB], repo_files=['pwned-merger-cli/mergeoperation.cpp'], flavour='plain'),
    'page': dict(script='harness/page.js', interpreter='node'),
    # the tools as they are, statically linked (they start in about 1 ms)
    'index': dict(repo=[LIB, 'pwned-index'], flavour='plain'),
    'convert': dict(repo=[LIB, 'pwned-converter-cli'], flavour='plain'),
    'merge': dict(repo=[LIB, 'pwned-merger-cli'], flavour='plain'),
    'lookup': dict(repo=[LIB, 'pwned-lookup-cli'], flavour='plain'),
    'be2le': dict(repo=[LIB, 'deprecated/be2le'], flavour='plain'),
    'testset': dict(repo=[LIB, 'extras/pwned-test-set-extractor'], flavour='plain'),
    'pwextract': dict(repo=[LIB, 'extras/pwned-password-extractor'], flavour='plain'),
    'markovgen': dict(repo=[LIB, 'extras/pwned-markov-generator'], flavour='plain'),
    'markovlookup': dict(repo=[LIB, 'extras/pwned-markov-lookup'], flavour='plain'),
    'server': dict(repo=[LIB, 'pwned-server'], flavour='plain'),
}
TECH_ENUM = 'explicit enumeration of all bounded inputs and operation histories of the real code against a reference model'
TECH_SCHED = 'stateless model checking of the compiled code: all thread schedules within a preemption bound, under a controlled scheduler'
TECH_CLIENT = 'stateless model checking of the compiled code: all interleavings of client actions, event handlers and clock steps within bounds, and explicit enumeration of request histories and faults'
TECH_PAGE = 'stateless model checking of the real script of the page: all interleavings of user actions, answers and message bodies within bounds, and explicit enumeration of inputs'
TECH_FAULT = 'exhaustive fault and crash point enumeration: every system call of the real program on its files, recorded with ptrace, is failed, shortened, interrupted, or made the last one'
CHECKS = {
    'C01': dict(main='inspector', technique=TECH_ENUM,
                note='Exhaustive within bounds: every subset of 8 colliding/extreme hashes as database, every incomplete tail, all histories of 5 lookups/openings, all histories on two objects at once, all sizes up to 700 records, files up to 12 GiB. Trusts the reference list model and the file system.',
                bounds=dict(quick='256 databases x 7 count assignments x 20 tails x 30 queries; all count vectors for 3 records; all histories of length 5 over 5 databases; all sizes 0..699; sparse files at 6 borders', thorough='same with counts for 4 records, histories of length 6, sizes 0..2099')),
    'C02': dict(main='inspector', tools=['index'], technique=TECH_ENUM,
                note='Exhaustive within bounds: all databases of at most 4 (7) of 11 hashes x key widths x queries around every record and bucket border, index bytes compared with the definition; widths 12..18 (24) and the width that is taken without the option on selected databases; databases of more than 4 GiB (sparse) indexed and looked up; all histories on two objects. Trusts the reference model.',
                bounds=dict(quick='<= 4 of 11 hashes, 1..7 bits, all borders', thorough='<= 7 of 11 hashes, 1..10 bits; wide keys up to 24 bits')),
    'C03': dict(main='inspector', technique=TECH_ENUM,
                note='Exhaustive within bounds: all subsets of 8 hashes, all mixed histories of length 4, on one and on two objects, five distributions x all sizes, databases of more than 4 GiB (sparse). Trusts the reference model.',
                bounds=dict(quick='256 databases; histories of length 4; sizes 0..259', thorough='histories of length 5; sizes 0..699')),
    'C04': dict(main='codec', technique=TECH_ENUM,
                note='Exhaustive within bounds: every byte at every position, every byte pair at every position pair, all lengths, all pairs of 81 hashes, digests of all texts of up to 2 bytes, all lengths up to 400 (2000) and lengths around the powers of two to 1 MiB. Trusts libcrypto as MD5 reference.',
                bounds=dict(quick='texts: 6 bases x 32 positions x 256 bytes, 31 x 65536 byte pairs, lengths 0..100; 81 x 81 hashes; sequences of up to 5 of 15 bytes', thorough='digests up to 1999 bytes, sequences of up to 6')),
    'C05': dict(main='codec', technique=TECH_ENUM,
                note='Exhaustive within bounds: all sequences of up to 3 (4) records over the alphabet, every truncation length, all orders of three positional reads. Trusts the file system.',
                bounds=dict(quick='sequences of <= 3 records, every truncation', thorough='<= 4 records')),
    'C26': dict(main='codec', technique=TECH_ENUM,
                note='Exhaustive within bounds: every second of 6 (31) days with 7 fractions, sizes around all powers of two and quarter steps, all argument lengths up to 300 (1500). Trusts the C library formatting as reference.',
                bounds=dict(quick='540000 s x 7 fractions, 320 size borders +-200, lengths < 300', thorough='2.7M s, lengths < 1500')),
    'C06': dict(main='reader', technique=TECH_ENUM,
                note='Exhaustive within bounds: all texts of up to 2 of 27 line forms (3, thorough 5, of 9) x all decodings x line ends, all texts of up to 5 (7) structural characters, all line lengths around 200, lines far longer, all line numbers around 500. Ties between separators may be decided either way. Trusts the reference model.',
                bounds=dict(quick='<= 2 of 27 lines x 9 options; 3 of 9 lines; <= 5 characters of 8', thorough='<= 5 of 9 lines; <= 7 characters')),
    'C18': dict(main='http', tools=['server'], technique=TECH_CLIENT, note='Exhaustive within bounds: the real HttpWorker objects on an event loop whose handlers the explorer runs one at a time, with a controlled clock and loopback sockets: all histories of 2 (3) of 67 requests on one worker, every split of four requests x handlers in between x ends, all interleavings of two and three client scripts with 0, 1 or all ready handlers, every socket or database call failing or transferring one byte; 280 (66000) connections of every pair of 12 kinds in turns on one service, without a descriptor left; the program itself with all requests. Handlers run one at a time here (several threads: C32). Trusts Boost.Beast only as part of the code under test, the kernel loopback for delivery before the next step.', bounds=dict(quick='2 requests; 8 scripts x 2 clients, 3 scripts x 3 clients, 1..2 workers; one fault in 2 requests', thorough='3 requests; 11 scripts, up to 3 workers, finer steps; one fault in 3 requests'), state='a distinct history of client actions and handler executions (stateless exploration)'),
    'C19': dict(main='uri', technique=TECH_ENUM,
                note='Exhaustive within bounds: all combinations of component samples, all texts of up to 5 (6) of 13 characters behind 10 beginnings, every byte at every position of two URIs, all ports, all histories of 4 (5) parses on one object, all targets of up to 6 (8) structural characters. Compared with an independent recursive-descent reading of the grammar; unspecified: IPv6 literals, schemes that do not begin with a letter, texts of more than 1000 characters.',
                bounds=dict(quick='5x7x6x11x6x10x5 component combinations; 10 x 13^5 texts; histories of length 4', thorough='10 x 13^6 texts, histories of length 5')),
    'C20': dict(main='markov', technique=TECH_ENUM,
                note='Exhaustive within bounds: all training/update histories of up to 4 (6) steps over 10 words, all count vectors of 4 symbols up to 5 (9), all splits of a corpus by updates, up to 65537 symbols and skewed counts; sums beyond 2^32 in the thorough tier. Compared with exact counting.',
                bounds=dict(quick='histories of <= 4 steps, two instantiations', thorough='histories of <= 6 steps, counts up to 9, 2^32+5 increments')),
    'C21': dict(main='markov', technique=TECH_ENUM,
                note='Exhaustive within bounds: all multisets of up to 3 (4) words loaded over 4 earlier contents, every truncation, every byte substitution, every impossible probability in every slot, every count field, all short byte sequences behind 6 beginnings; under AddressSanitizer with memory limit and watchdog.',
                bounds=dict(quick='<= 3 of 10 words, 9 corpora damaged, byte sequences of <= 6 of 6 bytes or 2 arbitrary ones', thorough='<= 4 words, <= 8 bytes')),
    'C22': dict(main='markov', technique=TECH_ENUM,
                note='The random source is a controlled input: every value of a grid of 64 points per unit of probability and all values around every interval border are enumerated for all multisets of words in one or two rounds of training, all count vectors and all loaded weights, many symbols and shares down to 1 in 60000, so that the measured share is exact.',
                bounds=dict(quick='<= 4 words; counts 0..5 of 4 symbols', thorough='<= 6 words; counts 0..8 of 5 symbols')),
    'C12': dict(main='sched', technique=TECH_SCHED, note='Exhaustive within bounds: all schedules of queues with 0..4 operations (each may fail by an exception of any type) and of 10 histories of several runs, on 1..3 hardware threads; queues of up to 33 operations and histories of up to 12 runs with one deviation from the order of turns. Preemption-bounded: a schedule may switch away from a thread that could go on at most as often as stated; switches where a thread blocks are free. Scheduling points are the synchronization calls, atomics and events; accesses between them are covered by the race check of C16. Sequentially consistent memory. Deadlocks, livelocks (step bound) and threads left behind are violations, too.', bounds=dict(quick='1 operation: 3 preemptions + 1 spurious wakeup; 2: 2; 2 with spurious wakeup: 1; 3: 1; 4: 0; histories: 1', thorough='4; 3; 2; 2; 1; 2'), state='a distinct (thread states, positions, remaining bounds, event history) at a scheduling decision', validated='the explored executions are those of the code itself, compiled from /repo with all threads under the controlled scheduler; counterexamples are replayed from their recorded decisions'),
    'C13': dict(main='sched', technique=TECH_SCHED, note='Exhaustive within bounds: all schedules and all priority orders of 2..4 operations on 1..3 hardware threads, equal priorities, second runs, after cancel and reset, paused; up to 20 operations in four orders of priority and 12 runs with one deviation from the order of turns. Preemption-bounded: a schedule may switch away from a thread that could go on at most as often as stated; switches where a thread blocks are free. Scheduling points are the synchronization calls, atomics and events; accesses between them are covered by the race check of C16. Sequentially consistent memory. Deadlocks, livelocks (step bound) and threads left behind are violations, too.', bounds=dict(quick='2 operations: 2 preemptions; 3: 1; 4: 0; equal priorities, second runs, cancel, pause: 1', thorough='3; 2; 1; 2'), state='a distinct (thread states, positions, remaining bounds, event history) at a scheduling decision', validated='the explored executions are those of the code itself, compiled from /repo with all threads under the controlled scheduler; counterexamples are replayed from their recorded decisions'),
    'C14': dict(main='sched', technique=TECH_SCHED, note='Exhaustive within bounds: all schedules of 15 scripts in which the main thread pauses and resumes, and of a second thread doing so at any time, with operations of 0..2 pause points of three styles; 8 operations and 6 pauses with one deviation from the order of turns. Preemption-bounded: a schedule may switch away from a thread that could go on at most as often as stated; switches where a thread blocks are free. Scheduling points are the synchronization calls, atomics and events; accesses between them are covered by the race check of C16. Sequentially consistent memory. Deadlocks, livelocks (step bound) and threads left behind are violations, too.', bounds=dict(quick='2 preemptions with the main thread pausing 1 or 2 operations (3 in one script); 1 with a second thread or 3 operations; 1 + 1 spurious wakeup', thorough='3 (4); 2; 1 + 1'), state='a distinct (thread states, positions, remaining bounds, event history) at a scheduling decision', validated='the explored executions are those of the code itself, compiled from /repo with all threads under the controlled scheduler; counterexamples are replayed from their recorded decisions'),
    'C15': dict(main='sched', technique=TECH_SCHED, note='Exhaustive within bounds: all schedules of 26 scripts that cancel, reset, pause and resume from the main thread and of a second thread doing so at any time, with operations that heed cancellation or do not, or fail; 8 operations, and 6 cancelled runs in series, with one deviation from the order of turns. Preemption-bounded: a schedule may switch away from a thread that could go on at most as often as stated; switches where a thread blocks are free. Scheduling points are the synchronization calls, atomics and events; accesses between them are covered by the race check of C16. Sequentially consistent memory. Deadlocks, livelocks (step bound) and threads left behind are violations, too.', bounds=dict(quick='2 preemptions with the main thread cancelling; 1 with a second thread; 1 + 1 spurious wakeup', thorough='3; 2; 2 + 1'), state='a distinct (thread states, positions, remaining bounds, event history) at a scheduling decision', validated='the explored executions are those of the code itself, compiled from /repo with all threads under the controlled scheduler; counterexamples are replayed from their recorded decisions'),
    'C16': dict(main='sched', also=['schedconvert', 'schedmerge'], technique=TECH_SCHED, note='Exhaustive within bounds: all schedules of the queue, the semaphore, conversions, merges and both main programs, every memory access of the compiled code (project, headers, instrumented standard library templates) checked by vector clocks and lifetime; templates of the standard library such as streams and strings included; accesses inside the C library and the locale part of libstdc++ are not seen. Preemption-bounded: a schedule may switch away from a thread that could go on at most as often as stated; switches where a thread blocks are free. Scheduling points are the synchronization calls, atomics and events; accesses between them are covered by the race check of C16. Sequentially consistent memory. Deadlocks, livelocks (step bound) and threads left behind are violations, too.', bounds=dict(quick='run 1 preemption, pause/cancel 2, second user thread 1, conversions and merges 1, two merges at once 2, programs with keys 0..1', thorough='one more each'), state='a distinct (thread states, positions, remaining bounds, event history) at a scheduling decision', validated='the explored executions are those of the code itself, compiled from /repo with all threads under the controlled scheduler; counterexamples are replayed from their recorded decisions'),
    'C17': dict(main='sched', technique=TECH_SCHED, note='Exhaustive within bounds: all multisets of 2..4 threads, each doing up to two waits or notifications, x initial capacities 0..2; histories of up to 80 calls and capacities up to 2000000000 with one preemption. Preemption-bounded: a schedule may switch away from a thread that could go on at most as often as stated; switches where a thread blocks are free. Scheduling points are the synchronization calls, atomics and events; accesses between them are covered by the race check of C16. Sequentially consistent memory. Deadlocks, livelocks (step bound) and threads left behind are violations, too.', bounds=dict(quick='2 threads: 4 preemptions, 2 + 1 spurious wakeup; 3 threads: 2, 1 + 1 spurious; 4 threads: 0', thorough='6, 3 + 1; 3, 2 + 1; 2'), state='a distinct (thread states, positions, remaining bounds, event history) at a scheduling decision', validated='the explored executions are those of the code itself, compiled from /repo with all threads under the controlled scheduler; counterexamples are replayed from their recorded decisions'),
    'C08': dict(main='sched', also=['schedconvert'], technique=TECH_SCHED, note='Exhaustive within bounds: all schedules of two or three conversions in a queue (same base names, existing files, several chunks, names that collide with generated ones), of a user cancelling, and of the program itself with keys; calls on files are scheduling points. Preemption-bounded: a schedule may switch away from a thread that could go on at most as often as stated; switches where a thread blocks are free. Scheduling points are the synchronization calls, atomics and events; accesses between them are covered by the race check of C16. Sequentially consistent memory. Deadlocks, livelocks (step bound) and threads left behind are violations, too.', bounds=dict(quick='2 inputs: 2 preemptions, 6 other collections: 1; user and program: 0..1', thorough='3; 2; 1'), state='a distinct (thread states, positions, remaining bounds, event history) at a scheduling decision', validated='the explored executions are those of the code itself, compiled from /repo with all threads under the controlled scheduler; counterexamples are replayed from their recorded decisions'),
    'C35': dict(main='schedconvert', also=['schedmerge'], technique=TECH_SCHED, note='Exhaustive within bounds: both main programs, compiled with instrumentation, under the controlled scheduler; 1 to 3 inputs that give 5 to 8 outputs, merges of 2 to 4 files in 1 to 3 rounds; up to seven sequences of keys, the first pressed at the opening of every output or at every read of the input in turn, later ones at rest, at a later opening or read, or at any time; all schedules within the preemption bound, calls on files are scheduling points. Keys at any other moment are explored by C08 and C11 (end results only). Sequentially consistent memory.', bounds=dict(quick='converter: 0 preemptions; merger: 1 (4 files: 0); all choices where a thread waits', thorough='1; 2 (1)'), state='a distinct (thread states, positions, remaining bounds, event history) at a scheduling decision', validated='the explored executions are those of the code itself, compiled from /repo with all threads under the controlled scheduler; counterexamples are replayed from their recorded decisions'),
    'C07': dict(main='tools', tools=['convert'], technique=TECH_ENUM, note='Exhaustive within bounds: all texts of up to 2 of 12 line forms (3 of 6; thorough 4) x entries per file x decodings, all lengths/periods/chunk sizes, every subset of 6 pre-existing output names, every subset of inputs of all kinds of names, all memory limits and thread numbers around the chunk borders, files of up to 200000 lines; the output directory is compared with the multiset of an independent reader. The schedules of the converter threads are those the system happens to produce here; C08 enumerates them.', bounds=dict(quick='<= 3 lines; 16 lengths x 5 periods x 5 chunk sizes; 64 subsets of existing files; 33 files', thorough='4 lines; 40 lengths x 9 periods; 64 files')),
    'C09': dict(main='tools', tools=['merge'], technique=TECH_ENUM, note='Exhaustive within bounds: all choices of up to 3 of 10 small databases, every number of files x limit x pattern x tail, 49..257 (2501) files with and without a limit, sizes around the buffer border, repeated inputs, counts up to 2^32-1, hashes that differ in one bit only, answers to the overwrite question, refused command lines. Trusts the reference sum.', bounds=dict(quick='<= 3 files of <= 2 records; 9 files x all limits', thorough='20 files x all limits')),
    'C23': dict(main='tools', tools=['testset'], technique=TECH_ENUM, note='Exhaustive within bounds: all database sizes x all requested numbers x output forms, all subsets of candidates removed from the non-existent selection; databases of up to 50000 records with and without a number given; a database of more than 4 GiB.', bounds=dict(quick='sizes 0..33 x all N', thorough='sizes 0..89 x all N')),
    'C24': dict(main='tools', also=['faults'], tools=['pwextract'], technique=TECH_ENUM, note='Exhaustive within bounds: all small directories x modes, all histories of 3 runs with appearing files and answers, names that contain each other, up to 300 files; and every system call of a run as crash point, torn write or failure, each followed by a recovery run. Process crash only: data handed to the kernel is assumed to survive.', bounds=dict(quick='<= 2 of 10 line forms per file; histories of 3 runs; every call of 4 runs (small/large, plain/bz2)', thorough='<= 3 lines; also 12 files')),
    'C25': dict(main='tools', tools=['be2le'], technique=TECH_ENUM, note='Exhaustive within bounds: all sequences of up to 4 (5) of 4 records x every incomplete tail, all record counts, large record counts around buffer borders; twice converting restores the original.', bounds=dict(quick='<= 4 records x 20 tails; 0..899 records', thorough='<= 5 records; 0..2499 records')),
    'C27': dict(main='term', tools=['convert', 'lookup', 'markovlookup'], technique=TECH_ENUM, note='Exhaustive within bounds: all histories of settings, up to three nested objects, the prompt echo and changes by another program on a pseudo-terminal, from all 8 combinations of the flags x 3 settings of the rest, all attributes compared with a model after each step; the converter with typed-ahead keys (its schedules are those the system produces) and lock-step sessions of both lookup tools.', bounds=dict(quick='histories of 5 steps; 6 command lines x 5 key sequences; sessions of up to 2 lines', thorough='6 steps; 9 key sequences')),
    'C28': dict(main='tools', tools=['lookup', 'index'], technique=TECH_ENUM, note='Exhaustive within bounds: all sequences of up to 3 (4) input lines of all kinds x databases x with/without index, all line lengths.', bounds=dict(quick='<= 3 lines', thorough='<= 4 lines')),
    'C29': dict(main='tools', tools=['convert', 'merge', 'index', 'lookup'], technique=TECH_ENUM, note='Exhaustive within bounds: all collections of up to 3 (4) lines in all splits over files, plain or with MD5 and hex decoding in five modes, and larger ones of up to 70001 (200003) lines in up to 17 files, through converter, merger, indexer and lookup with all chunk sizes and merge limits, compared end to end with counting.', bounds=dict(quick='<= 3 lines in 2 or 3 files; up to 70001 lines', thorough='<= 4 lines; up to 200003 lines')),
    'C30': dict(main='tools', tools=['markovgen', 'markovlookup'], technique=TECH_ENUM, note='Exhaustive within bounds: all training texts of up to 3 (4) of 12 line forms, queried for all words of up to 3 symbols and malformed ones, words of up to 65537 symbols, up to 5000 words in one run, texts of up to 200000 lines; compared with exact counting.', bounds=dict(quick='<= 3 lines', thorough='<= 4 lines')),
    'C31': dict(main='page', tools=['server'], technique=TECH_PAGE, note='Exhaustive within bounds: the script of index.html runs in Node against a document built from the page; all orders of up to 3 (4) lookups, answers, bodies, failures and the information request; all sequences of up to 5 (7) user acts; up to 260 (1100) lookups under way at once, answered in six orders; all counts up to 20000 (400000) and 300 edges; all one- and two-character passwords of a sample alphabet; and the page together with the real pwned-server. Trusts: Node runs the script as a browser would, the stand-in document, Node\'s MD5 in place of the JavaScript-MD5 submodule (not part of the repository). Rendering is not explored.', bounds=dict(quick='3 lookups x 5 outcomes', thorough='4 lookups, longer sequences'), state='a distinct history of user acts, answers and bodies (stateless exploration)'),
    'C32': dict(main='schedserver', technique=TECH_SCHED, note='Exhaustive within bounds: the event loop, the real HttpWorker objects and main() of the server, compiled with access instrumentation, run in 2 or 3 threads under the controlled scheduler with a controlled clock, against 19 client scripts: all schedules with up to 1 (2; one worker 2 and 3) preemptions at synchronization operations and changes of the event set, every access checked for data races. Sequential consistency is assumed; happens-before through epoll as the event loop relies on it. Boost.Asio is explored as part of the code under test, the kernel loopback is trusted.', bounds=dict(quick='1 preemption (2 with one worker), 2 deviations where a thread waits; 2..3 threads', thorough='2 preemptions (3 with one worker), 3 deviations'), state='how far each thread has got, and the client steps (stateless exploration)'),
    'C33': dict(main='cmdline', tools=['convert', 'merge', 'index', 'lookup', 'testset', 'pwextract', 'markovgen', 'server', 'be2le', 'markovlookup'], technique=TECH_ENUM, note='Exhaustive within bounds: for each of the real tools, in every spelling of the options, every unknown option, missing, malformed, out-of-range or repeated value, missing mandatory option and stray argument at every position of a complete command line; --help within every part of it; all spellings and orders of a complete command line compared with the canonical one; directories under every spelling of their path. The options are those of the documentation; values are compared by their effect on the files.', bounds=dict(quick='10 tools x 4 spellings x 7 kinds of errors x all positions; all combinations of spellings; all orders of up to 4 options', thorough='all orders of up to 5 options')),
    'C34': dict(main='cmdline', tools=['be2le', 'index', 'testset', 'markovgen', 'merge', 'pwextract', 'convert'], technique=TECH_ENUM, note='Exhaustive within bounds: each tool (11 modes) x 4 sizes of the input x 8 ways in which the path of the output denotes an input (other spellings, symbolic and hard links) x answers to the question; and outputs that are no input, which must be accepted. Compared with a snapshot of the directory.', bounds=dict(quick='11 modes x 4 sizes x 8 ways x 3 answers; up to 3 conversions into the source directory; 1..6 merged files x limits x working directories', thorough='the same')),
    'C10': dict(main='faults', tools=['convert', 'merge', 'index', 'be2le', 'testset', 'pwextract', 'markovgen'], technique=TECH_FAULT, note='Exhaustive within bounds: every system call on the files of 21 representative runs of the 7 real programs fails with each error (once or for good), is shortened (once or always) or interrupted, and for small runs every pair of such faults; the events are recorded anew from the tree under test. Errors of seek are excluded (cannot happen on regular files); stdout is not data.', bounds=dict(quick='21 runs, single faults; pairs for the 12 small runs', thorough='pairs for runs of up to 150 calls, more errors and lengths')),
    'C11': dict(main='faults', also=['sched'], tools=['mergetool'], technique=TECH_FAULT + '; ' + TECH_SCHED, note='Exhaustive within bounds: process kill before and after every system call, every torn write, every error, and pairs error+error / error+kill, for merges of 1-3 inputs including empty and multi-buffer ones; and all schedules of a merge in a queue with a user pausing, resuming and cancelling, where every removal of an input is checked against the output on the disk. Process crash, not power loss.', bounds=dict(quick='5 merges, single faults and pairs; 5 merges x 8 user scripts, 1..2 preemptions', thorough='8 merges, all pairs; 3 preemptions')),
}
