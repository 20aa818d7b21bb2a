import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook)))

p("P01","A search returns exactly the indexed formulae that are instances of it",
 "For every set of harvested formulae and every query, the answer set is exactly the set of (harvested expression, distinct subterm) pairs for which the subterm is obtained from the query by substituting terms for query variables: nothing that matches is missing, nothing that does not match is returned, and nothing is reported twice. Every occurrence of one named query variable must stand for the same term, while anonymous variables are independent. Constants match only when element name, whitespace-stripped text and number of children agree; the text inside mtext, XML attributes, surrounding whitespace and an m: prefix never influence matching.",
 ["inputs","histories"],"every corpus of content-MathML terms x every query term with named/anonymous variables, on both the in-memory and the on-disk index",
 "Tests run a handful of hand-picked queries against two fixed harvest files; the trie backtracking search, its variable-binding table and the two index representations interact differently for each corpus/query pair.",
 ["src/mws/query/SearchContext.cpp","src/mws/index/IndexIterator.hpp","src/mws/index/ExpressionEncoder.cpp","src/mws/index/TmpIndex.cpp","src/mws/index/IndexAccessor.hpp","src/mws/index/IndexBuilder.cpp"],
 [("trie","encoded terms -> leaf","TmpIndex / memsector"),("backtrack table","which variable is bound to which trie path","SearchContext::getResult")],
 [("backtracking over trie paths","SearchContext::getResult"),("DFS pre-order (id,arity) encoding","ExpressionEncoder::encode")],
 ["mwsd HTTP answer (json)"])
p("P02","Every hit points at the place where the match occurs",
 "Each hit carries the url of the harvested expression that contains the match, the stored data of the document that expression refers to, and the path of the first (document-order) occurrence of the matched subterm inside that expression. Each query variable is reported with the path that, appended to the hit's path, selects the subterm bound to it. One expression contributes at most one hit per distinct subterm.",
 ["inputs"],"every harvest (documents, expressions, url and data links) x every query",
 "Tests compare hit counts and one or two paths; the association formula -> expression -> document -> path is built across four components and only visible end to end.",
 ["src/mws/index/IndexBuilder.cpp","src/mws/types/CmmlToken.cpp","src/mws/dbc/MemFormulaDb.cpp","src/mws/dbc/LevFormulaDb.cpp","src/mws/dbc/DbQueryManager.cpp","src/mws/xmlparser/processMwsHarvest.cpp"],
 [("formula db","formula id -> (crawl id, url, xpath)","dbc/*FormulaDb"),("crawl db","crawl id -> document data","dbc/*CrawlDb")],
 [("unique formula set per expression","IndexBuilder::indexContentMath"),("xpath assigned at token creation","CmmlToken::newChildNode")],
 ["mwsd HTTP answer (json, xml)"])
p("P03","Range queries select exactly the numbers between their bounds",
 "A range in a query matches exactly the childless numeric literals (cn) whose value lies between its low and high bound, both included; a bound that is absent or not a number leaves that side unbounded, for negative numbers and zero as well. Distinct ranges in one query are independent and combine with variables and constants like any other subterm. Non-numeric content never matches and never makes the query fail.",
 ["inputs"],"every corpus of numeric and non-numeric literals x every combination of bounds, alone or nested among variables and constants",
 "The one range test uses a positive two-sided range; unbounded sides, negative values, several ranges and ranges combined with backtracking are not reached.",
 ["src/mws/query/SearchContext.cpp","src/mws/types/CmmlToken.cpp","src/mws/index/ExpressionEncoder.cpp"],
 [("range bounds","range id -> (low, high)","ExpressionInfo::rangeBounds")],
 [("RangeCtxt scan over siblings","SearchContext.cpp"),("bounds parsing","CmmlToken::getRangeBounds")],
 ["mwsd HTTP answer (json)"])
p("P04","Result pages tile the full result and the total does not depend on paging",
 "For a fixed index and query, the page requested with an offset and a size is exactly the corresponding contiguous slice of the one full result list, so pages neither overlap nor skip nor reorder hits. The reported total is the number of all matches (up to the documented maximum) whatever page is requested, including empty, last, oversized and out-of-range pages. Without explicit settings the page starts at 0 and has the default size.",
 ["inputs","configurations"],"every (offset, size) pair, including 0, beyond-the-end and default values, for every corpus and query and both index kinds",
 "Tests use at most one offset/size combination per query; the offset has to be mapped to a leaf and an offset inside that leaf's database entries, which depends on how hits distribute over leaves.",
 ["src/mws/query/SearchContext.cpp","src/mws/dbc/DbQueryManager.cpp","src/mws/dbc/LevFormulaDb.cpp","src/mws/dbc/MemFormulaDb.cpp","src/mws/xmlparser/readMwsQuery.cpp"],
 [("found","hits passed so far","SearchContext::getResult")],
 [("dbOffset/dbMaxSize computation","SearchContext::getResult"),("limit/offset scan","dbc/*FormulaDb::queryFormula")],
 ["mwsd HTTP answer (json)"])
p("P05","An index saved to disk answers like the index it was built from",
 "For every harvest, the index written to a directory and loaded again (any number of times, by any later process) gives for every query the same set of hits, the same totals and the same variable information as serving the harvest directly from memory. Loading does not change the directory's answers, and building twice from the same harvest yields equally answering indexes.",
 ["inputs","histories"],"every harvest x every query, across save/load cycles",
 "Unit tests export one small index and compare a few nodes; equality of the two implementations (in-memory trie vs. compressed memory sector, memory maps vs. LevelDB, dictionary save/load) needs every harvest.",
 ["src/mws/index/IndexWriter.cpp","src/mws/index/IndexLoader.cpp","src/mws/index/memsector.c","src/mws/index/TmpIndex.cpp","src/mws/index/index.h","src/mws/index/IndexAccessor.hpp","src/mws/dbc/LevCrawlDb.cpp","src/mws/dbc/LevFormulaDb.cpp","src/common/types/IdDictionary.hpp"],
 [("memsector","serialised trie","index.memsector"),("dictionary","meaning <-> id","meanings.dat"),("dbs","crawl.db, formula.db","LevelDB")],
 [("exportToMemsector","TmpIndex.cpp"),("dictionary save/load","IdDictionary.hpp")],
 ["mwsd -I vs mws-index + mwsd -D HTTP answers"])
p("P06","An interrupted, truncated or damaged index is never served as a good one",
 "If index building stops at any point (process killed, or any file operation failing), a later attempt to serve that directory either is refused with an error exit or gives exactly the answers of the completely built index; a build that did not complete does not report success. A memory-sector file that is truncated or has any byte changed is refused, without crashing, rather than served.",
 ["crash_points","fault_sequences"],"every file operation of the build as crash or failure point; every truncation length and byte corruption of the memory sector",
 "No test interrupts a build, fails a write or damages a file; the write order of the four files and the validation at load time decide the outcome.",
 ["src/mws/index/IndexWriter.cpp","src/mws/index/memsector.c","src/mws/index/IndexLoader.cpp","src/common/utils/mmap.c","src/mws/mws-index.cpp"],
 [("on-disk files","crawl.db, formula.db, index.memsector, meanings.dat","index directory")],
 [("checksummed header written last","memsector_save"),("validation on load","memsector_load")],
 ["exit status of mws-index and mwsd -D","answers of mwsd -D"])
p("P07","An existing index is never touched unless deletion was asked for",
 "Building into a directory that already holds an index, without the delete option, fails and leaves every answer of the existing index unchanged. With the delete option the new index replaces the old one completely: it answers exactly for the new harvest and keeps nothing from the old one. A server told to use an existing valid index never rebuilds or modifies it, even when harvests are also given.",
 ["histories","configurations"],"every sequence of build / build-with-delete / serve / serve-with-harvest operations on a directory",
 "No test builds twice into the same directory; the behaviour depends on the sequence of operations and flags.",
 ["src/mws/index/IndexWriter.cpp","src/mws/mws-index.cpp","src/mws/mwsd.cpp","src/mws/dbc/LevCrawlDb.cpp","src/mws/dbc/LevFormulaDb.cpp","src/common/utils/mmap.c"],
 [("directory contents","which index (if any) is present","index directory")],
 [("create_new with delete flag","LevCrawlDb/LevFormulaDb"),("load before build","mwsd.cpp main")],
 ["mws-index / mwsd exit status, directory contents, answers"])
p("P08","Harvest ingestion keeps every complete expression and never mislinks data",
 "From any harvest stream, exactly the expressions completely read before the first XML error are indexed (all of them when there is no error); an error in one harvest never affects what other harvests contribute. An expression is linked to the data element with its data id that precedes it in the same harvest, and to no document when there is none; ids are never resolved across harvests. Unknown elements and attributes, data without id, several terms in one expression and missing urls are tolerated without disturbing the neighbouring expressions, data is stored with its markup and text intact, and data can be switched off without changing which formulae are found.",
 ["inputs","fault_sequences"],"every sequence of harvest elements (well nested or not), every truncation point, every set of harvests",
 "Tests load two well-formed files and one malformed one and compare a count; the parser is a state machine over event sequences with error states.",
 ["src/mws/xmlparser/processMwsHarvest.cpp","src/mws/index/IndexBuilder.cpp","src/mws/types/CmmlToken.cpp"],
 [("parser state","default / in harvest / in expr / in data / unknown depth","MwsHarvest_SaxUserData"),("id map","local data id -> document","localIdToCrawlIds")],
 [("SAX state machine","processMwsHarvest.cpp")],
 ["mwsd answers after loading","mws-index log count"])
p("P09","Exactly the harvests that were asked for are loaded, each once",
 "From each given path the loader processes every non-hidden regular file with the configured name ending, in sub-directories exactly when recursion was requested, each exactly once, and nothing else. An unreadable, malformed or missing entry does not keep the other entries from being loaded.",
 ["inputs","configurations"],"every directory tree x extension x recursion flag x list of paths",
 "Tests load one flat directory; nesting, hidden entries, odd names, several paths and unreadable entries are not exercised.",
 ["src/mws/index/IndexBuilder.cpp","src/common/utils/util.cpp","src/common/utils/Path.hpp"],
 [("work list","directories still to visit","foreachEntryInDirectory")],
 [("directory walk","util.cpp foreachEntryInDirectory"),("suffix filter","hasSuffix")],
 ["mwsd answers after loading"])
p("P10","Every HTTP request gets exactly one right response and the server survives it",
 "The server answers a well-formed query posted to it with 200 and the answer set, an empty, malformed or expression-less query with 400, GET / with 200, OPTIONS with 200 and the allowed methods, and any other method or GET path with 405; the answer does not depend on how the request body is split or encoded in transit. No request, aborted upload, or sequence of them changes the answer to any other request or stops the server from answering. On a termination signal the server stops cleanly with success.",
 ["inputs","histories","fault_sequences"],"every sequence of requests (method, path, body, body fragmentation, aborts) from clients",
 "The HTTP front end has no tests at all.",
 ["src/mws/daemon/Daemon.cpp","src/mws/daemon/GenericHttpResponses.hpp","src/mws/xmlparser/readMwsQuery.cpp","src/mws/mwsd.cpp"],
 [("per-connection upload buffer","bytes received so far","MemStream in accessHandlerCallback")],
 [("method/URL dispatch and upload accumulation","accessHandlerCallback"),("SAX query parser","readMwsQuery")],
 ["HTTP status, headers and body on the socket","process exit status"])
p("P11","Concurrent queries are answered as if each were alone",
 "For every interleaving of simultaneous clients, each client receives the answer its own query would get from an idle server over the same index; only beyond the fixed limit of simultaneous connections may a client be turned away, without any response. The server never mixes data of different requests and never loses or duplicates a response.",
 ["schedules"],"every interleaving of concurrent requests (thread per connection), for search and schema queries and both index kinds",
 "No test runs two queries at the same time.",
 ["src/mws/daemon/Daemon.cpp","src/mws/daemon/HarvestQueryHandler.cpp","src/mws/daemon/IndexQueryHandler.cpp","src/mws/daemon/SchemaQueryHandler.cpp","src/mws/query/SearchContext.cpp","src/mws/xmlparser/readMwsQuery.cpp"],
 [("shared read-only index","dictionary, trie, databases","QueryHandler objects")],
 [("per-request encoder / context / buffers","handleQuery, accessHandlerCallback")],
 ["HTTP answers of concurrent clients"])
p("P12","All output formats report the same result",
 "For the same query, the XML, JSON and id-only answers agree: same total number of answers (for the id format: the distinct matching formulae), same hits in the same order with the same url, path and data, and the same query-variable paths. Every answer is well-formed in its format whatever characters occur in urls, data and names, and is labelled with the matching content type.",
 ["inputs"],"every result content (urls, data, names with markup, quotes, control or non-ASCII characters) x output format",
 "Formatter tests cover fixed answer objects without special characters and do not compare formats.",
 ["src/mws/xmlparser/MwsXmlResponseFormatter.cpp","src/mws/xmlparser/MwsJsonResponseFormatter.cpp","src/mws/xmlparser/MwsIdsResponseFormatter.cpp","src/mws/xmlparser/readMwsQuery.cpp","src/mws/query/SearchContext.cpp"],
 [],[("writeData of each formatter","xmlparser/*ResponseFormatter.cpp")],
 ["mwsd HTTP answers in the three formats"])
p("P13","With identifier renaming, search is invariant under renaming identifiers",
 "With identifier renaming enabled, an identifier is known by the order of its first appearance only: consistently and injectively renaming the single-character (ASCII) identifiers of a query, or of a harvested formula, changes no answer (identifiers in function position and longer ones excepted). A query without variables matches a whole harvested formula exactly when the two are equal up to such a renaming; inside a harvested formula the subterms keep the names their identifiers have in the whole formula. Identifiers in function position and longer identifiers match only themselves; without the option nothing is renamed.",
 ["inputs"],"every corpus, every query without free renaming inside variables, every injective renaming",
 "The one renaming test encodes single expressions; agreement between query-side and index-side renaming, in particular for proper subterms, is never tested.",
 ["src/mws/index/ExpressionEncoder.cpp","src/mws/index/IndexBuilder.cpp","src/mws/daemon/HarvestQueryHandler.cpp","src/mws/daemon/IndexQueryHandler.cpp"],
 [("renaming table","identifier -> canonical name","ExpressionEncoder::_ciTranslations")],
 [("order-of-first-occurrence renaming","ExpressionEncoder::_getCiMeaning")],
 ["mwsd -c answers"])
p("P14","Terms beyond internal capacities are rejected, never misinterpreted",
 "A query or harvested expression with any number of named variables, anonymous variables, ranges, children or any depth and size is either handled exactly as the general rules say or rejected cleanly (no hits, or the expression skipped); it never yields wrong matches, never merges different symbols, variables or ranges, and never takes the server down. Symbols unknown to the index simply produce an empty answer.",
 ["inputs"],"every number of variables/ranges/children/symbols and every depth, in particular around each internal limit",
 "Tests stay far below all limits.",
 ["src/mws/index/ExpressionEncoder.cpp","src/mws/index/encoded_token.h","src/mws/query/SearchContext.cpp"],
 [("id ranges","named vars, anonymous vars, ranges, constants","encoded_token.h")],
 [("limit checks in encode","ExpressionEncoder.cpp")],
 ["mwsd answers and liveness"])
p("P15","Schemata partition the submitted formulae",
 "For every list of variable-free formulae (those with a node of more than 255 children are left out and keep their number), two formulae belong to the same schema exactly when they agree on everything above the cut-off depth, so every formula is listed in exactly one schema under its own index, and each schema's coverage is the number of formulae it lists. Schemata are ordered by decreasing coverage; the requested maximum keeps the best-covering ones (0 keeps all) while the reported total counts all of them; with identifier renaming, formulae that differ only by a renaming count as equal.",
 ["inputs"],"every list of formulae x depth x cut-off mode x maximum",
 "Tests cover three small fixed inputs.",
 ["src/mws/query/SchemaEngine.cpp","src/mws/daemon/SchemaQueryHandler.cpp","src/mws/xmlparser/SchemaJsonResponseFormatter.cpp","src/mws/xmlparser/SchemaXmlResponseFormatter.cpp"],
 [("schema groups","reduced formula -> formula indices","SchemaEngine::getSchemata")],
 [("reduction to depth and grouping by hash","SchemaEngine.cpp")],
 ["schemad HTTP answer (json, xml)"])
p("P16","A schema generalises each of its formulae, cut at the requested depth",
 "Replacing the variables of a schema by suitable terms yields every formula it lists; the schema keeps exactly the structure above the cut-off depth (plus the operator of each kept application: its head and, if that is an application itself, again its operator) and puts one fresh variable for each subterm cut off (a depth of 0 leaves a single variable). The reported substitution references are, in order, those of the subterms of the first listed formula that the schema's variables replaced; relative mode measures the depth in percent of each formula's own depth.",
 ["inputs"],"every list of formulae x depth x cut-off mode",
 "Tests compare two or three complete schemata.",
 ["src/mws/query/SchemaEngine.cpp","src/mws/daemon/SchemaQueryHandler.cpp"],
 [],[("reduceFormula / decodeFormula","SchemaEngine.cpp"),("getSubstitutions","SchemaQueryHandler.cpp")],
 ["schemad HTTP answer (json, xml)"])
p("P17","A crawl visits each reachable allowed page once, and no page outside its site",
 "A crawl fetches the start page and then pages in breadth-first order of discovery; it never fetches a page twice, never a page on another host, and never more pages than the requested count (without a count, or with 0 or no number there, there is no limit). Unless the count stops it, every page reachable over allowed links on the same host is fetched, whatever the link graph (cycles, self links, repeated links, relative links, fragments, dead links).",
 ["inputs","histories"],"every link graph of a site x count limit",
 "The crawler has no tests.",
 ["src/crawler/crawler/MwsCrawler.cpp","src/crawler/utils/Page.cpp"],
 [("url queue","pages to visit","Crawler::url_queue"),("all_urls","pages seen","Crawler::all_urls")],
 [("frontier loop","Crawler::start"),("duplicate and permission filter","Crawler::cleanupLinks")],
 ["requests received by the crawled web server"])
p("P18","A crawl never follows a link that robots.txt or the request excludes",
 "Apart from the start page, no page on the site whose path and query begin with a prefix disallowed for all agents by the site's robots.txt, or with one excluded in the crawl request, is ever fetched, nor the directory such a prefix names written without its final slash. Rules addressed to other agents, comments and unknown lines do not exclude anything, and exclusions of one crawl do not carry over to the next.",
 ["inputs","histories"],"every robots.txt x exclusion list x link graph, over sequences of crawls",
 "The crawler has no tests.",
 ["src/crawler/types/Robotstxt.cpp","src/crawler/crawler/MwsCrawler.cpp","src/crawler/daemon/CrawlerDaemon.cpp"],
 [("not_allowed","excluded prefixes","Robotstxt")],
 [("robots.txt parsing and prefix test","Robotstxt.cpp")],
 ["requests received by the crawled web server"])
p("P19","All math found by a crawl ends up in well-formed harvest files",
 "When a crawl has finished, the harvest files it wrote contain, for every fetched page, every content-math expression of that page that is well-formed XML (the outermost math elements of an HTML page, the content annotations of an XHTML page) exactly once, labelled with the page's address and the formula's identifier, and every file is a well-formed harvest. No later or concurrent crawl, page or pack overwrites what was stored before.",
 ["inputs","histories"],"every set of pages (HTML and XHTML) x sequence of crawl requests, however close in time",
 "The crawler has no tests.",
 ["src/crawler/crawler/MwsCrawler.cpp","src/crawler/utils/MwsGetMath.cpp","src/crawler/utils/Page.cpp"],
 [("currentMathFormulae","formulae not yet stored","Crawler")],
 [("storeMath","MwsCrawler.cpp"),("math extraction","MwsGetMath.cpp")],
 ["harvest files in the data directory"])
p("P20","Accepted crawl requests are executed exactly once, in order, as submitted",
 "Every crawl request the service acknowledges is executed exactly once, one at a time, after every request acknowledged before it was made, with the start address, count and exclusions that were submitted with it and none from other requests. Requests without a start address are answered with the error page and start nothing, as do requests broken off before they are complete; the service keeps answering while a crawl is running.",
 ["schedules","histories"],"every interleaving of submissions (from any number of clients) with the crawling thread",
 "The crawler service has no tests; the request queue is shared by two threads.",
 ["src/crawler/daemon/CrawlerDaemon.cpp","src/crawler/crawler/MwsCrawler.cpp","src/crawler/types/SharedQueue.hpp","src/crawler/crawlerd.cpp"],
 [("shared queue","accepted requests","SharedQueue")],
 [("mutex-protected queue","CrawlerDaemon.cpp / Crawler::run"),("form parsing","cd_IteratePostRequest")],
 ["HTTP responses of crawlerd, requests received by the crawled web servers"])
p("P21","Converting documents to a harvest keeps every identified formula",
 "The harvest produced from a list of documents is well formed whatever characters occur in names, ids, text and metadata, and contains for each readable document exactly one data element (when data is enabled) and, in document order, one expression for each math element that has an identifier and content math, equal to that content math without ids, cross-references and prefixes, and linked to its own document's data. Documents that cannot be read or parsed contribute nothing and do not affect the others; without data each expression's url names document and formula.",
 ["inputs","configurations"],"every list of documents x converter options",
 "The converter has no tests.",
 ["src/crawler/docs2harvest.cpp","src/crawler/parser/MathParser.cpp","src/crawler/parser/XmlParser.cpp"],
 [],[("createHarvestFromDocument","MathParser.cpp")],
 ["harvest file written by docs2harvest"])
p("P22","Exported documents list exactly the index ids of the formulae they contain",
 "For every harvest and an index built from it, the export writes one record per document, carrying the document's id, metadata, text and math, and listing exactly the index's formula ids of the subterms of the expressions linked to that document, each with the addresses where it occurs. Files already exported are left untouched, and a search in id-only form for a subterm returns the very id that the export lists for it.",
 ["inputs","histories"],"every harvest directory with an index built from it; repeated exports",
 "The exporter has no tests.",
 ["src/crawler/harvests2json.cpp","src/mws/query/SearchContext.cpp","src/mws/index/IndexLoader.cpp"],
 [],[("parseMwsHarvestFromFd","harvests2json.cpp")],
 [".json files written next to the harvests"])
p("P23","The alternative query engine agrees with the default one",
 "For every index and every query built from constants and (named or anonymous) variables within the engine's size limits, the alternative (experimental) engine returns the same hits, page and total as the default engine.",
 ["inputs"],"every corpus x query, engine switched by option",
 "Unit tests run the alternative engine on one hand-built index.",
 ["src/mws/query/engine.c","src/mws/daemon/IndexQueryHandler.cpp"],
 [],[("trie unification","engine.c")],
 ["mwsd -D -x answers vs mwsd -D answers"])
p("P24","An analysis of a saved index is shown every formula once, as it was indexed",
 "For every saved index, an analysis walking it is shown every distinct indexed formula exactly once, with every token where it was in the expression (content, element and children in order, renamed identifiers under their new names), together with the number of its hits. It visits no other formulae, and stops where the analysis asks it to.",
 ["inputs","configurations"],"every index x analysis",
 "No test runs an analysis.",
 ["src/mws/analytics/analytics.cpp","analytics/example.cpp","src/mws/index/CallbackIndexIterator.hpp","src/mws/index/IndexIterator.hpp","src/mws/index/ExpressionEncoder.cpp"],
 [],[("walk of the index with a stack of open tokens","analytics.cpp")],
 ["formulae and counts an analysis is called with; output of analyze_example"])
for x in P:
    assert len(x['title'])<=80 and x['statement'].count('. ')<=2,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
