import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
p("C01","Cached regions are reused and refreshed exactly when they should be",
 "For every template instance, each cached region or cached placeholder (and each of its vary-by keys) shows the text of its latest successful computation, and is recomputed in a fill exactly when nothing is stored for it, its refresh interval has run out on the clock, its refresh test is true, a refresh of it was requested, or the cache store has lost the entry. Stored text and refresh requests never cross from one region, key or instance to another. An expired, evicted, refreshed or half-computed (failed) entry never makes a later fill or refresh request fail or show text that was never computed for it.",
 ["histories","fault_sequences","configurations"],
 "all histories of fills, clock advances, refresh requests, store evictions, failing computations and failing stores, over all cache options (interval, test, vary-by, custom id, cached placeholders, nesting)",
 "the tests fill each cache directive once or twice with an unchanged clock; none advances time, evicts, refreshes by key or fails a computation, so no expiry, refresh or recovery history is reached",
 ["Cheetah/CacheRegion.py","Cheetah/CacheStore.py","Cheetah/Compiler.py","Cheetah/Template.py"],
 [("generated cache-region code","Cheetah/Compiler.py startCacheRegion/endCacheRegion"),("cache items and regions","Cheetah/CacheRegion.py"),("refresh requests","Cheetah/Template.py refreshCache/getCacheRegion")],
 [("cache items","stored text, refresh and expiry time per region and key","Cheetah/CacheRegion.py CacheItem"),("store","key to (text, expiry)","Cheetah/CacheStore.py MemoryCacheStore")],
 ["text returned by each fill","number and time of evaluations of the region's body"])
p("C02","Threads sharing template classes render exactly as if each ran alone",
 "When any number of threads instantiate and fill their own instances of the same compiled template classes at the same time, each fill returns exactly the text that the same instance returns when it is filled alone, in every interleaving. This covers inheritance, included templates, filters, cached regions, captured and call regions, global assignments, error catchers and indentation, and also template generators whose steps are interleaved within a thread.",
 ["schedules","programs"],
 "all interleavings of instantiation and filling, over all templates built from the supported directives",
 "every existing test fills templates in one thread, so no interleaving is ever exercised",
 ["Cheetah/Template.py","Cheetah/Compiler.py","Cheetah/Filters.py","Cheetah/ErrorCatchers.py","Cheetah/Utils/Indenter.py","Cheetah/NameMapper.py","Cheetah/DummyTransaction.py"],
 [("per-instance state set up at construction","Cheetah/Template.py _initCheetahInstance"),("per-call local state in generated methods","Cheetah/Compiler.py _addAutoSetupCode")],
 [("instance state","search list, filters, includes, cache regions, buffering flag, indenter","Cheetah/Template.py")],
 ["text returned by each fill in each thread"])
p("C03","Concurrent, nested and failing compiles each end correctly",
 "Compiles running at the same time in any number of threads, or nested inside one another, each return a class that renders the source they were given with the options they were given, and each newly built class lives in a loaded module of its own that can be found under the class's module name. A compile that fails or is interrupted at any point raises its own error to its own caller and leaves no half-built module behind. Every other compile, running or later, still completes with the right result; none waits for ever.",
 ["schedules","fault_sequences","inputs"],
 "all interleavings of compile calls (threads and nesting), all points of failure: bad source, failing module code, failing source or module-file I/O, asynchronous interrupts",
 "the tests compile sequentially in one thread and never fail or interrupt a compile half-way before compiling again",
 ["Cheetah/Template.py","Cheetah/Compiler.py","Cheetah/Parser.py","Cheetah/SourceReader.py"],
 [("compile lock","Cheetah/Template.py compile"),("unique module names","Cheetah/Template.py _genUniqueModuleName"),("module registration","Cheetah/Template.py compile (sys.modules)")],
 [("loaded modules","one entry per compiled class","sys.modules"),("compile cache","request to class","Cheetah/Template.py")],
 ["classes returned and their output","loaded-module table","termination of every caller"])
p("C04","The compile cache never changes what a compile request returns",
 "Whatever compile requests came before, a request served with the compilation cache on gives the same rendered output, the same class and module names asked for, and the same generated source text as the same request compiled afresh with the cache off. Settings and module globals are the same when their values are equal and of the same type. A request that differs in source, file contents with a new timestamp, class, module or main-method name, base class, compiler settings, module globals or compiler never gets another request's result, while repeating an identical request returns the same class. A failed compile leaves nothing in the cache.",
 ["histories","configurations","fault_sequences"],
 "all histories of compile requests over all combinations of the cached-on options, file edits with clock advances, and failing compiles",
 "the tests repeat one request twice; they do not run histories that mix near-identical requests, file edits, failures and source-only requests",
 ["Cheetah/Template.py"],
 [("cache key computation","Cheetah/Template.py compile"),("hashDict/hashList","Cheetah/Template.py")],
 [("compile cache","request key to class and generated code","Cheetah/Template.py")],
 ["rendered output, class attributes and generated source per request"])
p("C05","A failed fill leaves no trace in later fills",
 "If a fill is cut short at any point - by an exception from user code, a failed lookup, a failing filter, include or file read, a stop directive, or an interrupt - the error reaches the caller unchanged, unless the template itself catches it (then the output produced outside the failed block is complete) or its own finally block raises another error or stops the fill. The next fills of that instance, and of any other instance, return exactly what they would have returned had the failed fill not happened, apart from the documented persistent effects that had already taken place (global assignments, completed cache entries). In particular no filter, output redirection or partially collected output stays in force.",
 ["fault_sequences","programs","histories"],
 "all templates built from the supported directives, all failure points in a fill, all sequences of failing and succeeding fills",
 "the tests assert that an error is raised and then discard the instance; they never fill it again nor fail inside a buffered, filtered or cached block",
 ["Cheetah/Compiler.py","Cheetah/Template.py","Cheetah/Filters.py","Cheetah/CacheRegion.py","Cheetah/DummyTransaction.py","Cheetah/ErrorCatchers.py"],
 [("filter, call, capture and cache regions in generated code","Cheetah/Compiler.py"),("include handling","Cheetah/Template.py _handleCheetahInclude")],
 [("current filter","filter used by the next method call","Cheetah/Template.py"),("buffering flag","whether nested calls may stream","Cheetah/Template.py")],
 ["exception seen by the caller","text of every later fill"])
p("C06","Streaming to a response delivers the same text, in order, once",
 "Filling a template into a response object (given for the call or attached to the instance) writes exactly the text that filling it to a string returns, in the same order and each piece once, for every placement of method calls (as plain placeholders), includes, blocks, captures, caches and filters; with the response attached to the instance, method calls inside a filter region are excepted, and text that a method has already written is not taken back when the template catches an error of that method. Text that is captured, passed to a call region or cached is not written early or twice. If the response fails at some write, that error reaches the caller, what was written before is an exact prefix of the full text, nothing is written afterwards, and a later fill is complete again.",
 ["programs","fault_sequences","histories"],
 "all templates built from the supported directives, all response objects and points at which their write fails, mixed histories of string and streaming fills",
 "the tests fill almost exclusively to strings; no test makes a response fail or compares streamed with returned text over nested regions",
 ["Cheetah/Compiler.py","Cheetah/Template.py","Cheetah/DummyTransaction.py","Cheetah/Servlet.py"],
 [("transaction selection in generated methods","Cheetah/Compiler.py _addAutoSetupCode"),("collectors for call, capture and cache regions","Cheetah/Compiler.py")],
 [("transaction","where output goes","Cheetah/Servlet.py, Cheetah/DummyTransaction.py")],
 ["sequence of writes at the response"])
p("C07","Command-line compile and fill never lose or fake an output file",
 "A command-line compile or fill that exits with status 0 has written every requested output completely, with the content the library produces for the current source. If the process dies or is interrupted, or reading a source, making a directory or writing an output or backup fails at any point, the exit status is not 0. Whatever happens, no source file changes and, unless backups are turned off, the previous complete content of every output that existed before is still at its own path or at its backup path; after a successful run it is at the backup path of each replaced output. Without failures the status is 0. A flat run in which two sources have the same output is refused and changes nothing. (Sources are distinct existing files, no output is a source, and asking whether a file exists does not fail.) A source that fails to compile or to fill leaves its existing output and backup as they were.",
 ["crash_points","fault_sequences","configurations"],
 "all file trees and option combinations, all crash points and failing, short or full-disk file operations during the run",
 "the tests run the command line only on intact disks; none injects a crash or an I/O error or looks at backups after one",
 ["Cheetah/CheetahWrapper.py","Cheetah/Utils/Misc.py"],
 [("compile before backup before write","Cheetah/CheetahWrapper.py _compileOrFillBundle"),("package directories","Cheetah/Utils/Misc.py mkdirsWithPyInitFiles")],
 [("output and backup files","previous and new content","file system")],
 ["files on disk after the run","exit status"])
p("C08","Parallel command-line runs report every failed or killed worker",
 "A parallel command-line compile or fill that exits with status 0 has produced exactly the files that the serial run produces, whatever order its workers run and finish in. If any worker fails, is killed by a signal, or cannot be started, the exit status of the command is not 0. The command always finishes, leaves no worker behind unwaited, and never runs more workers at once than asked for; when no worker fails, its exit status is 0.",
 ["schedules","fault_sequences","configurations"],
 "all worker counts, completion orders, worker failures, signal deaths and failures to start a worker",
 "the tests run two parallel compiles on an idle machine in whatever order the kernel picks and never kill a worker",
 ["Cheetah/CheetahWrapper.py"],
 [("worker pool","Cheetah/CheetahWrapper.py _compileOrFill")],
 [("pid pool","workers not yet waited for","Cheetah/CheetahWrapper.py")],
 ["exit status","files on disk","process start and wait calls"])
p("C09","An interrupted template load never poisons later loads",
 "Loading a template from disk by path or by import, with its compiled form saved next to it or in the cache directory, returns the class for that template even when saving the compiled form fails. If a load is interrupted, the process dies, or a file operation fails, is short or fills the disk at any point, the next load without faults - in the same or in a new process - returns a class whose output is exactly that of the template source. A load whose source cannot be compiled raises an import error, leaves nothing that a later load would use, and succeeds once the source is corrected.",
 ["crash_points","fault_sequences","histories"],
 "all crash points and file faults during loads, all histories of loads, restarts and repairs of the source, for path loads, import hooks and cache directories",
 "the tests load templates from an intact directory once per process and never crash or fail a write in between",
 ["Cheetah/ImportHooks.py","Cheetah/ImportManager.py","Cheetah/LoadTemplate.py"],
 [("compile, save, byte-compile","Cheetah/ImportHooks.py _compile"),("choice between source, bytecode and template","Cheetah/ImportManager.py DirOwner.getmod")],
 [("saved .py and bytecode files","compiled form reused by later loads","file system")],
 ["class returned by each load","files left on disk"])
p("C10","Loading one template from several threads or processes is safe",
 "When several threads of one process, or several processes, load templates by path from the same directory at the same time, every load returns a complete class whose output is exactly that of its template source, in every interleaving. No load fails because another is in progress, and all of them finish.",
 ["schedules"],
 "all interleavings of concurrent path loads of the same and different templates, with and without compiled forms already on disk",
 "no existing test loads templates from more than one thread or process",
 ["Cheetah/ImportHooks.py","Cheetah/LoadTemplate.py","Cheetah/ImportManager.py"],
 [("loader lock","Cheetah/ImportHooks.py CheetahDirOwner.getmod"),("private module object per load","Cheetah/LoadTemplate.py")],
 [("saved .py and bytecode files","shared between loaders","file system"),("loaded modules","shared between threads","sys.modules")],
 ["class returned by each load","termination"])
p("C11","Cache stores keep the documented set/add/replace/delete/get contract",
 "For every sequence of operations and clock movement, a cache store returns for a key the value most recently stored for it and not yet expired, deleted or cleared, and otherwise reports the key as missing; storing with an expiry of zero never expires. Adding succeeds only when the key is absent or expired, replacing only when it is present, deleting reports a missing key, and a refused operation changes nothing. This also holds key by key when several threads use one store at once, and for the store that forwards to an external cache server, whose refusals to add, replace or delete it reports in the same way and whose errors reach the caller.",
 ["histories","schedules","fault_sequences"],
 "all histories of store operations and clock advances, all interleavings of several threads on one store, all failures and evictions of the external server",
 "no existing test calls a cache store directly, moves the clock or runs the server-backed store",
 ["Cheetah/CacheStore.py"],
 [("in-memory store","Cheetah/CacheStore.py MemoryCacheStore"),("server-backed store","Cheetah/CacheStore.py MemcachedCacheStore")],
 [("store data","key to (value, expiry)","Cheetah/CacheStore.py")],
 ["result or exception of each operation"])
p("C12","Edited template files show up in the next compile, include or monitored fill",
 "After a template file on disk is changed and its modification time moves forward, the next compile of that path, the next render of it by name through the TurboCheetah engine, the next new instance that includes it, and the next fill of an instance whose template was compiled with source monitoring all use the new content; until then all of them keep giving the old content. A file that is missing, unreadable or does not compile at that moment raises some error or keeps the previous behaviour, and the first use after it has been repaired gives the repaired content. This holds for any number of successive edits and for instances alive across them.",
 ["histories","fault_sequences"],
 "all histories of edits, clock movement, deletions, broken intermediate versions and read errors, interleaved with compiles, includes and monitored fills",
 "the existing tests never change a template file between two uses",
 ["Cheetah/Template.py","Cheetah/Compiler.py","Cheetah/SourceReader.py","Cheetah/Tools/turbocheetah/cheetahsupport.py"],
 [("file timestamp in the compile-cache key","Cheetah/Template.py compile"),("source file monitoring","Cheetah/Compiler.py _addSourceFileMonitoring, Cheetah/Template.py _compile")],
 [("recorded file time","time of the source used","generated code, Cheetah/Template.py")],
 ["text of each fill after each edit"])
p("C13","Failing namespaces never corrupt a name lookup",
 "Once a lookup has found a name in the search list, an exception or interrupt raised by user code while its value is fetched or called reaches the caller unchanged; the lookup never returns another namespace's value instead, never crashes the process, and neither leaks nor over-releases references. (An AttributeError from an attribute means that it is absent, and an exception while a namespace is asked whether it has the name may count as absence.) The next lookups give the same results as before the failure. Both implementations of name lookup (compiled and pure Python) behave this way.",
 ["fault_sequences","inputs"],
 "all search lists mixing mappings and objects, dotted names and callables, and all points at which user code inside the lookup fails, changes its answer or is interrupted",
 "the tests look up names in well-behaved dictionaries and objects only; none makes a namespace fail or change half-way through a lookup, and none counts references",
 ["Cheetah/NameMapper.py","Cheetah/c/_namemapper.c","Cheetah/c/_namemapper.h"],
 [("lookup loop","Cheetah/c/_namemapper.c PyNamemapper_valueForName"),("pure Python lookup","Cheetah/NameMapper.py _valueForName")],
 [("reference counts","one per held object","CPython")],
 ["value or exception of each lookup","reference counts before and after","process survival"])
p("C14","Random numbers and the clock never influence what a template renders",
 "Compiling the same source with the same options gives a class with the same output whatever values the random-number generator and the clock return during the compile, including repeated and extreme values. Distinct cached, captured, call or filter regions of a template are never confused with one another. A compile always finishes, also through long runs of repeated values.",
 ["fault_sequences","programs","inputs"],
 "all sequences of values the random-number generator and clock can return during compile, all templates with several regions",
 "the tests run with whatever random values come up; two equal draws in one template practically never occur in a test run",
 ["Cheetah/Compiler.py","Cheetah/Template.py"],
 [("region identifiers","Cheetah/Compiler.py nextCacheID"),("unique module names","Cheetah/Template.py _genUniqueModuleName")],
 [("region identifiers","names of generated local state","generated code")],
 ["rendered output","number of evaluations of each region"])
p("C15","A compiled template run as a program prints its whole fill or fails",
 "Running a compiled template module as a program prints exactly the text that filling the template gives, followed by a newline, and exits with status 0; names are looked up first in the data sources of the command line (--env, --pickle, --json; from a file or standard input), a later one before an earlier one, and then in what the template itself defines. If a data source is missing, unreadable, cut short or damaged, an option is wrong, or the fill fails at any point, nothing of the template is printed and the exit status is not 0. If printing fails, is interrupted or the process dies, the exit status is not 0 and what was printed is a prefix of the right text. A later run without failures is complete again.",
 ["fault_sequences","inputs","configurations"],
 "all templates, all combinations and orders of data sources, all points at which reading data, filling or printing fails, is short, is interrupted or dies",
 "the tests run the interface with one good data source and never fail a read or a print, cut a source or combine several",
 ["Cheetah/TemplateCmdLineIface.py","Cheetah/Compiler.py","Cheetah/Template.py"],
 [("command-line interface","Cheetah/TemplateCmdLineIface.py CmdLineIface.run"),("module footer","Cheetah/Compiler.py moduleFooter"),("run as main program","Cheetah/Template.py runAsMainProgram")],
 [("search list","data sources in front of the template's own names","Cheetah/Template.py searchList")],
 ["standard output","exit status"])
p("N01","Templates render literal text and placeholders as the language says",
 "For every template source, literal text passes through unchanged and every placeholder, directive and escape renders as the users' guide says.",
 ["inputs","programs"],"all template sources and values","tests sample a finite set of sources",
 ["Cheetah/Parser.py","Cheetah/Compiler.py","Cheetah/SourceReader.py"],[("parser and code generator","Cheetah/Parser.py, Cheetah/Compiler.py")])
p("N02","Syntax errors are reported at the right line and column",
 "Every source that is not a valid template is rejected with a parse error naming the line and column of the offending token.",
 ["inputs"],"all invalid sources","tests sample a finite set of sources",
 ["Cheetah/Parser.py","Cheetah/SourceReader.py"],[("position tracking","Cheetah/SourceReader.py")])
p("N03","Output filters escape exactly the characters they promise to",
 "For every value, the escaping filters output text in which no markup-significant character of the value survives unescaped, and all other characters are unchanged.",
 ["inputs"],"all values","tests sample a finite set of values",
 ["Cheetah/Filters.py"],[("WebSafe and related filters","Cheetah/Filters.py")])
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for x in P:
        jsonschema.validate(x,sch); assert len(x['title'])<=80
        f.write(json.dumps(x)+'\n')
print(len(P))
