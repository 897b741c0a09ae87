import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
INS=["pwned-lib/passwordinspector.cpp","pwned-lib/passwordinspector.hpp"]
Q=["pwned-lib/operationqueue.hpp","pwned-lib/operation.cpp","pwned-lib/operation.hpp"]
p("C01","A lookup returns exactly the stored count of a hash",
 "For every sorted password database, looking up a hash returns exactly the number of occurrences stored for that hash, together with the hash itself, and a count of 0 for every hash that is not stored. This holds for any database size (empty, one record, more than 4 GiB), for a file that ends in an incomplete record (the incomplete record is ignored), and for any sequence of earlier successful or unsuccessful lookups on the same object. After another database has been opened with the same object, all answers come from the newly opened one.",
 ["inputs","histories"],"all databases over a hash alphabet with collisions in either half, all lookup/open sequences",
 "The existing inspector tests look up two fixed lists of hashes (one found, one not) in one fixed file; boundary positions, histories of lookups, odd file sizes, large files and re-opening are never touched.",
 INS,[("binary search over 20-byte records","PasswordInspector::binsearch"),("file size and handles are set on open","PasswordInspector::open")],
 [("mFileSize","size of the open database in bytes","pwned-lib/passwordinspector.hpp")],["PasswordInspector::binsearch","PasswordInspector::lookup","PasswordInspector::size"])
p("C02","An index never changes the result of a lookup",
 "The indexer writes, for a key of b bits, 2^b entries of 8 bytes: entry k is the byte offset of the first database record whose hash starts with the b-bit prefix k, or all ones if there is no such record; a key width outside 1..63 is refused with a failure exit status. A lookup that uses the index returns for every hash - stored or not, in used or in unused buckets, at either end of the database - the same result as a lookup without index, and it always terminates.",
 ["inputs","configurations"],"all small databases x all key widths up to the bound x all queried hashes around every record and bucket border",
 "No test creates or uses an index at all.",
 INS+["pwned-index/index.cpp"],[("bucket offsets, unused buckets marked by all ones","main in pwned-index/index.cpp"),("narrowing the search range by the neighbouring used buckets","PasswordInspector::binsearch"),("key width is derived from the index size","PasswordInspector::open")],
 None,["index file written by pwned-index","PasswordInspector::binsearch with index"])
p("C03","Both search strategies give the same answer",
 "The interpolating ('smart') search returns for every database and every hash the same count and hash as the plain binary search, and as the database content prescribes. It leaves the object in a state in which any following lookup of either kind is answered correctly.",
 ["inputs","histories"],"all small databases x all hashes x all sequences of mixed searches",
 "The smart-search tests replay one list of hashes against one uniformly distributed file; skewed distributions, extreme hashes and mixed histories are not exercised.",
 INS,[("estimated position with growing window, then search","PasswordInspector::smart_binsearch")],None,["PasswordInspector::smart_binsearch"])
p("C04","Hash text, bytes and order agree",
 "The hash of a byte sequence is its MD5 digest (for every length and every byte value), its text form is the 32-digit hexadecimal digest in the requested letter case, and reading that text (in any letter case) yields an equal hash again; any text that is not exactly 32 hexadecimal digits yields an invalid hash. Comparing valid hashes with ==, !=, <, <=, >, >= is a total order that agrees with the order of their text forms. Decoding a hexadecimal byte sequence succeeds exactly for an even number of hexadecimal digits and yields the encoded bytes.",
 ["inputs"],"all byte values at all positions of the text, all pairs over an alphabet of hashes, all inputs up to a length",
 "The tests use a handful of literals; they cannot cover each byte value at each position, each pair of hashes, nor input lengths around the MD5 block size.",
 ["pwned-lib/hash.hpp","pwned-lib/hash.cpp","pwned-lib/util.cpp"],[("hex codec","Hash::fromHex, Hash::toString, decodeHex, hexToCharSeq"),("digest in host order halves","Hash::Hash(const std::string&), Hash::toHostByteOrder"),("comparison operators","pwned-lib/hash.hpp")],None,["Hash","decodeHex","hexToCharSeq","operator<<"])
p("C05","Database records survive writing and reading; short reads are reported",
 "A record is stored as exactly 20 bytes: the upper and the lower 64 bit half of the hash and the 32 bit count, each in host byte order. Writing any sequence of records and reading it back - sequentially or by position in any order - yields the same records, and a read that does not get a complete record is reported as failed.",
 ["inputs","histories"],"all counts of an alphabet, all record sequences up to a length, all truncation points, all position orders",
 "The test reads one record from one file; truncated files, positions in arbitrary order and boundary counts are not reached.",
 ["pwned-lib/passwordhashandcount.hpp","pwned-lib/hash.hpp"],[("record serialization","PasswordHashAndCount::dump / read"),("partial read detection through gcount","PasswordHashAndCount::read, Hash::read")],None,["PasswordHashAndCount::read","PasswordHashAndCount::dump","Hash::read"])
p("C06","Passwords are extracted from every line as documented",
 "The separator of an input is one of colon, semicolon, tab and space that occurs in most of its first 500 lines; the password of a line is what follows the first separator, or the entire line if there is none; carriage returns are not part of a line, and empty lines, empty passwords and lines of more than 200 characters yield no password. The hash of a password is its MD5 digest, except that a password consisting of exactly 32 hexadecimal digits (MD5 decoding) or of $HEX[an even number of hexadecimal digits] (hex decoding) stands for that digest or those bytes if the corresponding decoding is forced, or is automatic and one of the first 500 lines contains such a text in a line of at most 200 characters that has the separator (if there is one). Every line is delivered exactly once and in order, with or without a final line end.",
 ["inputs","configurations"],"all texts over a structural alphabet of line pieces up to a length, all option combinations",
 "The tests read a few well-formed files with one separator each; ties and mixtures of separators, line ends, limits at 200 characters and 500 lines, malformed encodings and option combinations are not covered.",
 ["pwned-lib/userpasswordreader.cpp","pwned-lib/userpasswordreader.hpp"],[("separator detection","UserPasswordReader::guessSeparator"),("encoding detection","checkForMD5Hashes, checkForHexEncodedPasswords"),("line splitting and decoding","extractPassword, nextPassword, nextPasswordHash")],
 [("guessedSeparator","separator of the input","pwned-lib/userpasswordreader.hpp")],["UserPasswordReader::nextPassword","UserPasswordReader::nextPasswordHash"])
p("C07","Conversion preserves the multiset of passwords",
 "For any set of input files and any memory limit, the files written by one conversion run contain, added up, every valid password of the inputs with exactly its number of occurrences and nothing else, and each written file is strictly sorted by hash with positive counts. The program ends by itself when all is converted, also if its standard input stays open. No file that existed before in the destination directory is changed or replaced, and input files are left as they were. Files are found by explicit naming and, recursively, by the .txt extension in a source directory.",
 ["inputs","configurations"],"all small collections of input texts x memory limits that split after every few lines x pre-existing destination files",
 "No test runs the converter at all; splitting depends on the memory limit and only shows for inputs larger than the limit, name collisions need existing files.",
 ["pwned-converter-cli/convertoperation.cpp","pwned-converter-cli/pwned-converter-cli.cpp"],[("counting map per chunk, sorted output","ConvertOperation::execute"),("output name is chosen so that it does not exist","ConvertOperation::execute"),("memory limit per thread","main")],None,["output files of pwned-converter-cli","exit status"])
p("C08","Concurrent conversions never share or overwrite an output file",
 "Under every interleaving of concurrently running conversions - in particular of inputs with the same base name from different directories - each conversion writes its own output files, and the output files together hold exactly the passwords of all inputs. No interleaving makes a conversion overwrite, truncate or mix a file written by another.",
 ["schedules"],"all interleavings of up to three conversions of same-named inputs up to a preemption bound",
 "Choosing a free name and creating the file is a check-then-act sequence; tests would have to hit a window of microseconds between two threads.",
 ["pwned-converter-cli/convertoperation.cpp"],[("name choice and creation under one lock","ConvertOperation::execute, outputFileMtx")],None,["output directory after all operations"])
p("C09","A merge is the sorted sum of its inputs",
 "For any positive number of sorted input files, any limit on files processed at once (at least 2) and any distribution of equal hashes over files and within a file, the merge terminates by itself (also if standard input stays open) and its output contains every hash of the inputs exactly once, strictly sorted, with the sum of all its counts. A limit below 2 and an output that is one of the inputs are refused with a failure status and without effect; an existing destination is only overwritten if the user answers 'y'. Inputs remain unchanged, nothing but the destination file remains, and trailing incomplete records are ignored.",
 ["inputs","configurations"],"all small families of sorted files x all limits on files at once x overwrite answers",
 "No test runs the merger; multi-round merging only occurs with more inputs than the limit (default 50), and duplicate hashes across rounds need crafted inputs.",
 ["pwned-merger-cli/mergeoperation.cpp","pwned-merger-cli/pwned-merger-cli.cpp","pwned-merger-cli/mergerinput.hpp"],[("k-way merge through a priority queue","MergeOperation::execute, MergeOperation::next"),("rounds over intermediate files","main in pwned-merger-cli.cpp")],None,["output file of pwned-merger-cli","exit status","temporary directory"])
p("C10","An I/O error is never silent and never hangs",
 "If opening or reading its input data fails, or opening, writing or closing its output data, while a tool (converter, merger, indexer, byte order converter, test set extractor, password extractor, Markov generator) runs, the tool terminates and exits with a failure status, and all its input files remain unchanged. A tool that exits successfully has written its complete, correct result.",
 ["fault_sequences"],"every single failing call (open errors, EIO, ENOSPC, short reads and writes) at every point of representative runs, and pairs of them",
 "Tests never inject failures; each of the several hundred calls is a distinct failure point.",
 ["pwned-converter-cli/convertoperation.cpp","pwned-merger-cli/mergeoperation.cpp","pwned-index/index.cpp","deprecated/be2le/be2le.cpp","extras/pwned-test-set-extractor/test-set-extractor.cpp","extras/pwned-password-extractor/pwned-password-extractor.cpp","extras/pwned-markov-generator/pwned-markov-generator.cpp"],
 [("stream states are checked after reading, writing, closing","each tool"),("an operation ended by an exception makes the queue report failure","Operation::start, OperationQueue::hasFailed")],None,["exit status","output files"])
p("C11","A merge that removes its inputs never loses data",
 "If a merge is asked to remove its inputs afterwards, then at every moment - and hence after a crash of the process at any point - the data of the inputs is either still completely present in the input files or completely present in the output file. Inputs are only removed after the whole output has been written successfully: not if writing fails, not if reading an input fails, not if the merge is cancelled.",
 ["crash_points","fault_sequences","schedules"],"process termination at every system call, an error at every system call, cancellation at every step of a merge",
 "Tests would have to stop the process between particular system calls or make one of them fail.",
 ["pwned-merger-cli/mergeoperation.cpp"],[("inputs are removed after the output was closed without error","MergeOperation::execute")],None,["file system state"])
p("C12","A queue runs every operation exactly once and then completes",
 "Under every schedule, every operation added to a queue is executed exactly once, waiting for the queue returns, and only after all operations have ended; an operation that fails by an exception neither prevents other operations from running nor goes unreported. Operations added after a completed run are executed by the next run.",
 ["schedules","histories"],"all interleavings of queue, scheduler and operation threads up to a preemption bound, including spurious wakeups, all small operation sets and run histories",
 "There is no queue test; lost wakeups and early returns depend on interleavings.",
 Q,[("scheduler thread starts a thread per operation","OperationQueue::execute"),("joining all threads","OperationQueue::waitForFinished")],
 [("unscheduledOps, runningOps","operations waiting and running","pwned-lib/operationqueue.hpp")],["Operation::execute calls","waitForFinished"])
p("C13","Operations respect priority and the concurrency limit",
 "At no time do more operations of a queue execute than there are hardware threads. Operations are started in the order of decreasing priority: an operation may only begin once all but (number of hardware threads - 1) of the operations with higher priority have ended.",
 ["schedules","configurations"],"all interleavings up to a preemption bound for 1..3 hardware threads and all priority orders of up to four operations",
 "No test runs a queue; the limit can only be exceeded under particular schedules and machine sizes.",
 Q+["pwned-lib/semaphore.hpp"],[("counting semaphore of hardware threads","OperationQueue::guard"),("priority queue","OperationQueue::unscheduledOps")],None,["Operation::execute begin and end"])
p("C14","Pausing and resuming loses no operation and no wakeup",
 "After a running queue has been paused, each executing operation stops at its next pause point until the queue is resumed; an operation that has already been given one of the hardware threads may still begin, and then stops at its first pause point, but no operation is given one. After it has been resumed every operation continues, and all are executed exactly once; pausing and resuming at any moment, repeatedly, before the start or after the end neither blocks the queue forever nor changes the result.",
 ["schedules"],"all interleavings of pause/resume calls with the queue's threads up to a preemption bound, including spurious wakeups",
 "A wakeup is lost only if resume falls between the check and the wait of a thread.",
 Q,[("predicate wait on the pause condition","OperationQueue::operationWait"),("pausing running operations","OperationQueue::pause")],None,["Operation::execute progress","isRunning"])
p("C15","Cancelling ends the queue promptly and for good",
 "Cancelling a queue at any moment - before, during or after its run, paused or not - returns, lets waiting for the queue return, and after it has returned no operation begins or continues to execute. The queue stays marked as cancelled until it is reset; a reset queue runs newly added operations normally.",
 ["schedules"],"all interleavings of cancel (with pause/resume) with the queue's threads up to a preemption bound",
 "Deadlocks and late starts need particular interleavings.",
 Q,[("cancel flags checked under the lock","OperationQueue::cancel, Operation::cancel, Operation::start"),("paused operations are woken by cancel","OperationQueue::operationWait")],None,["Operation::execute after cancel","isCancelled"])
p("C16","The concurrent components are free of data races and use-after-free",
 "Under every schedule of the operation queue, the converter and the merger with a user pausing, resuming and cancelling, no two threads access the same memory without synchronization when one of them writes, and no thread uses an object after it has been destroyed.",
 ["schedules"],"all interleavings up to a preemption bound of the queue, conversion and merge scenarios, all memory accesses checked by happens-before and lifetime",
 "Races are invisible to functional tests.",
 Q+["pwned-lib/semaphore.hpp","pwned-converter-cli/convertoperation.cpp","pwned-merger-cli/mergeoperation.cpp","pwned-lib/uuid.hpp"],[("mutexes and atomics","OperationQueue, Operation, Semaphore"),("an operation is deleted once nobody refers to it","OperationQueue::finished")],None,["every memory access of the compiled code"])
p("C17","The semaphore admits as many as notified and loses no wakeup",
 "A semaphore never lets more waiters pass than its initial capacity plus the number of notifications, and every waiter passes if that number suffices. This holds for every schedule of any number of waiting and notifying threads, including spurious wakeups.",
 ["schedules"],"all interleavings of up to four threads with waits and notifications",
 "No test uses the semaphore.",
 ["pwned-lib/semaphore.hpp"],[("counter under a mutex with a waiting loop","Semaphore::wait, Semaphore::notify")],None,["Semaphore::wait","Semaphore::notify"])
p("C18","The web service answers every request from the database",
 "For every history of client behaviour - requests split arbitrarily, several clients at once, malformed, unknown or oversized requests, idle connections, connections closed or reset at any time - the first complete request on a connection gets exactly one well-formed response, after which the service closes the connection: a lookup of a valid hash (in any letter case) gets 200 with the hash in lower case and its stored count, a malformed hash 400, an unknown path or a lookup without hash 404, another method 400, and the info request 200 with the number of records and the modification time of the database. If the database cannot be read, the answer says so (500) instead of giving a count. A connection on which anything else than HTTP arrives just ends, and so does one that is idle for 60 s. Neither the behaviour of a client nor a transient error of the network stops the service or affects the answers to other clients.",
 ["histories","inputs"],"all interleavings of the actions of up to three clients with the service's handlers and the clock, all requests of an alphabet in all short histories, every split of a request, every failing socket call",
 "The Python test needs a running service and database and is not run; it sends single complete requests.",
 ["pwned-server/httpworker.cpp","pwned-server/httpworker.hpp","pwned-server/uri.cpp"],[("worker state machine accept-read-respond-accept","HttpWorker::accept, readRequest, processRequest, sendResponse, sendBadResponse"),("lookup through the inspector","HttpWorker::sendResponse")],None,["HTTP responses"])
p("C19","URIs and request targets are split into their components",
 "Parsing a well-formed URI yields exactly its scheme, user name, password, host, port (given, or the scheme's default for http and https), path, query parameters and fragment, and marks it as valid; a text that is no URI, that has unusable credentials, query parameters or a port beyond 65535 is marked as invalid. A parse is not influenced by anything parsed before. Splitting a request target yields its path, its key=value parameters and its fragment.",
 ["inputs","histories"],"all combinations of component values over an alphabet, all texts over the delimiter alphabet up to a length, all sequences of two parses",
 "The test parses a handful of URIs, each with a fresh object.",
 ["pwned-server/uri.cpp","pwned-server/uri.hpp"],[("regular expression and splitting","URI::parse"),("splitting of targets","URI::parseTarget")],None,["URI accessors"])
p("C20","Markov probabilities are the trained relative frequencies",
 "After training with any sequence of passwords, the probability of a first symbol is its share of all first symbols, that of a successor its share of all successors of the symbol, and 0 for anything never seen; the probability of a password is the product along its symbols. Training any further and updating again, in any order of training, gives the same probabilities as training at once; empty passwords are refused.",
 ["inputs","histories"],"all training sequences over a small alphabet (including multi-byte symbols), all queried passwords up to a length",
 "The Markov test trains one fixed set and compares a few values.",
 ["pwned-lib/markovchain.hpp","pwned-lib/markovnode.hpp"],[("counting","Chain::train, addFirst, addPair, Node::increment"),("normalization","Chain::update, Node::update"),("product","Chain::totalProbability")],None,["Chain::totalProbability","Chain::firstSymbolProbs","Node::probability"])
p("C21","A saved Markov chain loads back unchanged; damaged files are refused",
 "Saving any chain and loading it yields the same first-symbol and successor probabilities, and saving the loaded chain again gives an equivalent file; loading by default replaces whatever the chain contained. Loading any byte sequence returns in bounded time and memory; a file that is truncated anywhere, has a wrong header or version, or contains a probability outside the range from 0 to 1 is reported with an error code.",
 ["inputs","crash_points"],"all small chains, truncation at every byte, every byte replaced by boundary values",
 "The test writes and reads one chain; no damaged file is tried.",
 ["pwned-lib/markovchain.hpp"],[("binary format with header, version and counts","Chain::saveBinary, Chain::loadBinary")],None,["Chain::saveBinary","Chain::loadBinary","Chain::errString"])
p("C22","Random symbols follow the trained distribution",
 "For every trained chain and every value of the random source in [0,1), the generated first symbol or successor is one with positive probability, and the share of the random values that leads to a symbol is the symbol's probability. The same holds for a chain that has been loaded from a file.",
 ["inputs"],"all small chains x a complete grid of random values including all borders",
 "Tests with real randomness can only sample.",
 ["pwned-lib/markovchain.hpp","pwned-lib/markovnode.hpp"],[("accumulated probabilities","Chain::randomFirstSymbol, Node::randomSuccessor")],None,["Chain::randomFirstSymbol","Node::randomSuccessor"])
p("C23","The test set extractor selects exactly what was asked for",
 "For any database and any positive number, the extracted test set of existing hashes consists of distinct, complete records of the database in ascending order with their counts, as many as requested or all if there are fewer; the set of non-existing hashes contains no hash of the database. In URL mode each line is the prefix followed by the text of the hash. A non-positive number is refused.",
 ["inputs","configurations"],"all database sizes up to a bound (with incomplete last record) x all numbers x modes",
 "The tool has no test; stride and rounding errors depend on the relation of size and number.",
 ["extras/pwned-test-set-extractor/test-set-extractor.cpp"],[("stride through the file","main")],None,["output file","exit status"])
p("C24","The password extractor loses no password, whatever interrupts it",
 "The password extractor writes each non-empty password of each .txt input file on a line of its own, in the order of the lines of a file, once. A file is recorded as processed in .ready only after all its passwords are in the output, so that after a crash at any point every input is either not recorded or completely contained in the output of the run that recorded it; recorded files are skipped in the next run unless this is disabled, and an existing output is overwritten only if the user answers 'y'.",
 ["inputs","crash_points","histories"],"all small input directories x modes, process termination at every system call, run histories",
 "The tool has no test; crash consistency needs termination between particular system calls.",
 ["extras/pwned-password-extractor/pwned-password-extractor.cpp"],[("output is flushed before the file is recorded as ready","main")],None,["output file",".ready"])
p("C25","Byte order conversion converts every record exactly once",
 "Converting a big-endian database yields, for any number of records, a file with the same number of records in the same order in which both hash halves are in host byte order and the counts are unchanged; converting twice restores the original. An incomplete last record is not converted, and a file that cannot be read or written gives a failure status.",
 ["inputs"],"all record sequences over an alphabet up to a length, with every incomplete tail",
 "The tool has no test.",
 ["deprecated/be2le/be2le.cpp","pwned-lib/hash.hpp"],[("swap of both halves","Hash::toHostByteOrder"),("loop over records","main")],None,["output file","exit status"])
p("C26","Sizes, durations and formatted texts are printed correctly",
 "A duration of less than 60 seconds is printed in seconds with four decimals, any other rounded to whole seconds and split into days, hours, minutes and seconds of which each is below its next unit and which add up to it. A size is printed in the largest binary unit it exceeds, with one decimal. A formatted text is complete for any format and any length of its arguments.",
 ["inputs"],"all second values over several days and unit borders with neighbours, all sizes around unit borders, all argument lengths up to a bound",
 "The tests check a handful of values.",
 ["pwned-lib/util.cpp"],[("unit splitting","readableTime, readableSize"),("growing buffer","string_format")],None,["readableTime","readableSize","string_format"])
p("C27","The terminal is left as it was found",
 "Whatever sequence of echo and break settings a program makes during its run, when the object that controls the terminal ends, the terminal has exactly the settings it had when the object was created. Each setting changes only its flags: the echo setting switches echo and line-wise input together, the break setting the interrupt keys, setStdinEcho the echo alone. The password prompts of the lookup tools hide what is typed and switch the echo on again afterwards, and the converter leaves the terminal as it found it whether it succeeds, fails or is cancelled.",
 ["histories","configurations"],"all sequences of settings, nested objects and changes by others up to a length x all initial combinations of terminal flags; all short key histories of the interactive tools",
 "Tests do not run on a terminal.",
 ["pwned-lib/util.cpp"],[("settings saved on construction, restored on destruction","TermIO"),("echo flag","setStdinEcho")],None,["terminal attributes"])
p("C28","An interactive lookup session answers every line",
 "In an interactive session each entered line (with spaces, empty or with any bytes) is answered by the MD5 hash of exactly that line and by the number of times it is contained in the database, or by 'Not found.', in the order of the input, with or without an index. The session ends with the end of the input and with a success status.",
 ["histories","inputs"],"all sequences of lines over an alphabet up to a length x databases x index",
 "The tool has no test.",
 ["pwned-lookup-cli/pwned-lookup-cli.cpp"]+INS,[("line loop","main")],None,["standard output","exit status"])
p("C29","From text files to answers: the whole pipeline adds up",
 "Converting any collection of user:password files, merging the results, indexing the merged database and looking up any password reports exactly how often this password occurs in the collection, however the collection is split into files, chunks and merge rounds. Different splits of the same collection give the same merged database, byte for byte.",
 ["inputs","configurations"],"all distributions of small collections over files x chunk sizes x files at once x key widths",
 "The tools are tested in isolation if at all; agreement of formats and conventions between them is not tested.",
 ["pwned-converter-cli/convertoperation.cpp","pwned-merger-cli/mergeoperation.cpp","pwned-index/index.cpp","pwned-lib/passwordinspector.cpp","pwned-lib/userpasswordreader.cpp"],[("common record format and order","PasswordHashAndCount, Hash")],None,["merged database","lookup results"])
p("C30","The Markov tools report the trained probability of any password",
 "A Markov file generated from any password file holds exactly the chain trained with all passwords of that file, in the order of its lines, under the same rules of password extraction as everywhere else. The lookup tool that loads it answers each entered word with the probability the chain gives it, and ends with the end of the input; a file that is not a complete Markov file is refused with a message and a failure status.",
 ["inputs","histories"],"all small password files x all queried words up to a length, all truncations of a generated file",
 "The tools have no test.",
 ["extras/pwned-markov-generator/pwned-markov-generator.cpp","extras/pwned-markov-lookup/pwned-markov-lookup.cpp","pwned-lib/markovchain.hpp"],[("training loop","main of the generator"),("answer loop","main of the lookup tool")],None,["Markov file","standard output","exit status"])
p("C31","The web page shows the answer for the password entered last",
 "On every lookup (a click on the button, or an input while the box 'on every keypress' is checked) the web page asks the server once, for the MD5 hash of the UTF-8 text of the password; the password itself is never sent. The page shows this hash, and as result only the answer for the password entered last: 'N times' with the thousands separated by commas, or 'not found', with the lookup time, or an error message if that lookup has failed. In whatever order answers and failures of several lookups arrive, nothing of an older lookup is shown as, or replaces, the result of the latest one. The number of hashes in the database and the time of its last update are shown as the server reports them.",
 ["schedules","inputs","histories"],"all orders of user actions, answers, message bodies and failures up to a bound; all counts and passwords up to a bound",
 "The page has no test; answers out of order need a slow network to show.",
 ["pwned-lookup-web/index.html","pwned-server/httpworker.cpp"],[("request and display of the answer","lookup in the script of index.html"),("triggers","main in the script of index.html")],None,["text, classes and visibility of the elements of the page","requests sent"])
p("C32","Server threads do not disturb each other",
 "However many threads and workers the server runs, and in whatever order their steps interleave: requests served at the same time do not disturb each other. Every client gets exactly the response it would get alone; none is lost, mixed up or cut. A connection is only ended before its response because its own 60 seconds are over, never because the time of an earlier client of the same worker is; a worker whose client has been slow, has gone or has been cut off serves the next one. The server does not crash and no two threads access the same data without synchronization. Every line of the log is one complete request.",
 ["schedules","histories"],"all schedules of 2..3 server threads within a preemption bound x client scripts with slow, disappearing and simultaneous clients",
 "No test runs the server; what is at stake are windows of microseconds between threads.",
 ["pwned-server/httpworker.cpp","pwned-server/httpworker.hpp","pwned-server/pwned-server.cpp"],[("all handlers of a worker run in its strand","HttpWorker::mSocket, mReqTimeout"),("end of the time","HttpWorker::checkTimeout"),("lines of the log","logger in main of the server")],None,["responses received by the clients","data races","log"])
TOOLS=["pwned-converter-cli/pwned-converter-cli.cpp","pwned-merger-cli/pwned-merger-cli.cpp","pwned-index/index.cpp","pwned-lookup-cli/pwned-lookup-cli.cpp","pwned-server/pwned-server.cpp","extras/pwned-test-set-extractor/test-set-extractor.cpp","extras/pwned-password-extractor/pwned-password-extractor.cpp","extras/pwned-markov-generator/pwned-markov-generator.cpp","extras/pwned-markov-lookup/pwned-markov-lookup.cpp","deprecated/be2le/be2le.cpp"]
p("C33","Command lines are understood or refused",
 "A command line with an error - an unknown option, an argument that belongs to no option, an option without its value, a number that is malformed or out of range, a single-valued option given twice, a value for a switch, a missing mandatory option or file name - is refused: the tool ends with a failure status and no file is created, changed or removed. This holds for every position of the error, every tool and every spelling of the other options. --help names every option, ends with success and has no other effect, whatever else the command line contains. All spellings (--option value, --option=value, -o value, -ovalue) and orders of the same options give the same result, and a directory is processed alike under every spelling of its path.",
 ["inputs"],"all single errors at all positions x spellings x tools; all spellings and orders of a complete command line; all spellings of paths",
 "The tests do not run the tools at all.",
 TOOLS,[("option tables and their evaluation","main of each tool")],None,["exit status","files","text of the help"])
p("C34","No tool destroys its own input",
 "A tool whose output would be one of its own input files - under any spelling of the path, by a symbolic or hard link, whatever is answered to a question - refuses with a failure status and leaves all files as they are. An output that is no input is not refused. Converting into the directory of the inputs, or merging with the intermediate and merged files in it, leaves all inputs as they were.",
 ["inputs","configurations"],"all tools and modes x sizes x ways in which two paths denote the same file x answers",
 "The tests do not run the tools at all.",
 [t for t in TOOLS if "lookup" not in t and "server" not in t],[("comparison of input and output","main of each tool")],None,["contents of the directory","exit status"])
p("C35","Keys pause, resume and end the work of the converter and the merger",
 "While pwned-converter-cli converts, pressing the space key pauses it: apart from the outputs being written at that moment nothing more is written and the program does not end until the key is pressed again; then it goes on, and the result is that of an undisturbed run. The key p does the same for pwned-merger-cli while it merges. The key q ends either program, whether running or paused: with a success status, all inputs unchanged, no incomplete converted file, no intermediate file of the merger left behind and, if it was running, without going on to files not begun yet. Other keys have no effect. This holds at every moment of the work, under every schedule, and again after each resumption.",
 ["schedules","histories"],"a key at the opening of every output and whenever the program is at rest x sequences of keys x interleavings of the key thread with the operations",
 "The tests do not run the tools; when a key is pressed relative to the work is a matter of scheduling.",
 ["pwned-converter-cli/pwned-converter-cli.cpp","pwned-converter-cli/convertoperation.cpp","pwned-merger-cli/pwned-merger-cli.cpp","pwned-merger-cli/mergeoperation.cpp","pwned-lib/operationqueue.hpp"],
 [("key thread","main of the converter and of the merger"),("points at which an operation pauses or ends","ConvertOperation::execute, MergeOperation::execute")],None,["keys","output files","exit status"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
