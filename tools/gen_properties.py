import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,title)
    P.append(d)
T="python/templates/"
I="include/podio/"
p("C01","A Frame read back is the Frame that was written",
 "For every Frame content (any mix of generated datatypes, links, interfaces, user data, owning and subset collections, any sizes, values and relations within the Frame) handing its collections' write buffers, collection ID table and parameters to storage and building a new Frame from them gives a Frame with exactly the same collection names, types, IDs, subset flags, sizes and element order. Every member and vector-member value is bit-identical, every relation and subset element refers to the element at the same collection and position as before (or is still unset), and every parameter has the same type, key and values. Writing does not change what the written Frame shows, and writing the read-back Frame again yields the same content once more.",
 ["inputs","histories"],"all Frame contents expressible in a datamodel, including repeated write/read generations",
 "In this build only an ostream test of the runtime is stable; the I/O tests need ROOT/SIO and use one fixed example event.",
 [I+"Frame.h",T+"CollectionData.cc.jinja2",T+"Collection.cc.jinja2",I+"UserDataCollection.h",I+"detail/LinkCollectionData.h",I+"detail/LinkCollectionImpl.h",I+"GenericParameters.h",T+"macros/collections.jinja2"],
 [("prepareForWrite builds contiguous ranges and object IDs",T+"CollectionData.cc.jinja2"),("prepareAfterRead/setReferences rebuild objects",T+"CollectionData.cc.jinja2"),("Frame unpacking",I+"Frame.h")],
 ["CollectionBase::getBuffers","Frame::get","element accessors"])
p("C02","Partially read Frames resolve what is there and flag what is not",
 "When only a subset of the written collections is available on reading, in whatever order the collections are accessed, every relation, link end and subset element into an available collection resolves to exactly the element it was written with. Every one into a missing collection is reported as not available, without changing the number or order of relations, any other value, or the rest of the Frame. Asking for a missing collection yields nothing and never fails in another way.",
 ["inputs","histories"],"all Frame contents x all subsets of collections kept x all access orders",
 "No runnable test reads a Frame with missing collections.",
 [I+"Frame.h",T+"CollectionData.cc.jinja2",I+"detail/LinkCollectionData.h",I+"detail/RelationIOHelpers.h"],
 [("ICollectionProvider lookup returning false leaves empty handles",T+"CollectionData.cc.jinja2"),("recursive lazy unpacking",I+"Frame.h")])
p("C03","Collections behave as ordered containers of their elements",
 "A collection behaves like a sequence under every history of creating, appending, indexing, iterating, clearing, moving and swapping: size and emptiness always match, elements stay in insertion order, handles obtained earlier keep referring to the same element, checked access outside the range throws out_of_range, and clearing leaves a collection that is usable again. Adding an element that already belongs to a collection, or a const element to an owning collection, is refused with invalid_argument and leaves the collection unchanged. Each element's own ID always states the ID of the collection it lives in and its position in it, also after the collection ID is changed.",
 ["inputs","histories"],"all operation sequences on collections of every generated type",
 "Container behaviour is exercised by a handful of fixed sequences in a test binary that does not build here.",
 [T+"Collection.cc.jinja2",T+"Collection.h.jinja2",T+"CollectionData.cc.jinja2",I+"CollectionBase.h",I+"detail/LinkCollectionImpl.h",I+"ObjectID.h"],
 [("push_back/create/at/clear/setID",T+"Collection.cc.jinja2"),("link counterpart",I+"detail/LinkCollectionImpl.h")])
p("C04","Subset collections reference, never own or alter, their elements",
 "A subset collection shows, in order and with repetitions, exactly the elements that were added to it: each entry is the very same object as in its owning collection, with its original ID, and changes made through the owner are visible through it. Neither filling, clearing, moving, re-identifying nor destroying a subset collection ever alters or destroys an element or an owning collection. Creating elements in it, adding untracked elements to it, or switching the kind of a non-empty collection is refused with the documented exception and leaves everything unchanged.",
 ["inputs","histories"],"all histories over owning and subset collections of all types",
 "A few fixed sequences only, in binaries that are not built here.",
 [T+"Collection.cc.jinja2",T+"CollectionData.cc.jinja2",I+"detail/LinkCollectionImpl.h",I+"detail/LinkCollectionData.h"],
 [("setSubsetCollection, push_back checks",T+"Collection.cc.jinja2"),("clear on subsets releases only references",T+"CollectionData.cc.jinja2")])
p("C05","Handles alias one object; clones are independent",
 "Every handle to an object, however obtained (creation, indexing, iteration, relation, mutable-to-const conversion, copy, move), sees the same state: a change through one mutable handle is visible through all others, and equality, ordering and hashing agree with object identity and with each other. A clone has the same values (and, if requested, the same relations), belongs to no collection, and no later change to either object is visible in the other. An emptied or unlinked handle is not available, equals other empty handles, and affects no other handle.",
 ["inputs","histories"],"all sequences of handle operations over all generated types",
 "Unit tests pick one or two types and one sequence each.",
 [T+"Object.cc.jinja2",T+"MutableObject.cc.jinja2",T+"Obj.cc.jinja2",T+"macros/declarations.jinja2",T+"macros/implementations.jinja2",I+"utilities/MaybeSharedPtr.h",I+"detail/Link.h",I+"detail/LinkObj.h"],
 [("MaybeSharedPtr shared/released ownership",I+"utilities/MaybeSharedPtr.h"),("clone copies Obj",T+"MutableObject.cc.jinja2")])
p("C06","No memory error, undefined behaviour or leak in any valid history",
 "Under every history of valid API use (creating, adding, relating, cloning, copying, moving, clearing, writing, reading, dropping collections, Frames, handles, links, interfaces and user data in any order) the library performs no out-of-bounds, use-after-free, double-free, uninitialised or otherwise undefined access. Memory is released when the last owner goes: repeating a history any number of times does not grow memory, except for untracked objects that relate to each other in a cycle. Handles that outlive their collection can always be destroyed or reassigned safely.",
 ["inputs","histories"],"all valid API histories and destruction orders",
 "Destruction orders and moves are combinatorial; no sanitizer run is part of the stable tests.",
 [I+"utilities/MaybeSharedPtr.h",T+"Obj.cc.jinja2",T+"CollectionData.cc.jinja2",T+"Collection.cc.jinja2",I+"detail/LinkCollectionData.h",I+"CollectionBuffers.h",I+"Frame.h",T+"Interface.h.jinja2"],
 [("ownership hand-over to collections",I+"utilities/MaybeSharedPtr.h"),("clear() deletes buffers and objects",T+"CollectionData.cc.jinja2")])
p("C07","Members and relations return exactly what was stored",
 "For every datatype and component of a datamodel, each member, nested component member, array element, vector member and relation reads back exactly the last value stored to it, from creation arguments, whole-member setters, sub-member setters, element-wise array setters or mutable references, and no store changes any other member of that or another object. Members never set show their declared default (or zero), relations never set are empty. Relation and vector-member sequences keep insertion order under interleaved additions, their size, iterator, range and index accessors all agree, and checked accesses out of range throw out_of_range.",
 ["inputs","histories","configurations"],"all member kinds x all store/read sequences x both getter syntaxes",
 "Tests touch a few members of one example model.",
 [T+"macros/implementations.jinja2",T+"macros/declarations.jinja2",T+"Data.h.jinja2",T+"Component.h.jinja2",T+"Obj.cc.jinja2",T+"MutableObject.cc.jinja2",T+"Object.cc.jinja2",I+"RelationRange.h"],
 [("generated getters/setters",T+"macros/implementations.jinja2"),("RelationRange",I+"RelationRange.h")])
p("C08","A Frame stores each name once and hands out stable, right-typed data",
 "A Frame returns for each name exactly the collection or parameter stored under it: putting transfers the content with its elements' identity, references stay valid and unchanged while the Frame lives or is moved, and a name that is already in the Frame (stored, or still unread from its input data) is refused with invalid_argument without changing the Frame. Asking for a missing name or with a wrong type is reported (exception or null) and changes nothing. The list of available collections is exactly the names that can be got, each once, and stored collections have the ID and type name the Frame reports for that name.",
 ["inputs","histories"],"all sequences of put/get/parameter/move operations on Frames, empty or built from input data",
 "The Frame unit tests are not built here and use fixed sequences.",
 [I+"Frame.h",I+"CollectionIDTable.h","src/CollectionIDTable.cc"],
 [("FrameModel::put/get/getAvailableCollections",I+"Frame.h")])
p("C09","Concurrent reading of a Frame equals sequential reading",
 "However many threads concurrently get collections, list names, look up IDs and names, read parameters, prepare collections for writing, or put collections under different names, on the same Frame, whether built in memory or lazily unpacked from input data, there is no data race and no deadlock. Every thread obtains the same result as in some sequential execution: a collection present in the Frame is never reported missing, all threads see the same object for a name, and every collection obtained has its relations fully resolved.",
 ["schedules"],"all interleavings of concurrent operations on one Frame",
 "Existing tests are single threaded except one small put/get test that is not built here.",
 [I+"Frame.h",I+"CollectionIDTable.h","src/CollectionIDTable.cc",I+"GenericParameters.h",T+"Collection.cc.jinja2"],
 [("m_mapMtx/m_dataMtx",I+"Frame.h"),("storageMtx in prepareForWrite",T+"Collection.cc.jinja2")],
 state=[("m_collections/m_data","unpacked collections and raw input",I+"Frame.h")])
p("C10","Parameters are a typed key-value store, also under concurrency",
 "Parameters behave as one independent map per supported type (int, float, double, string): the last value set for a key and type is what is read, single values and vectors convert as documented, missing keys give no value, keys and values of a type are listed completely and consistently, and copies, moves, comparisons-by-content and bulk loading preserve all entries without affecting the source. Operations from many threads on one object, including listing keys and copying it, have no data race, lose no update, and each read observes a value that was actually set.",
 ["inputs","histories","schedules"],"all sequences and interleavings of parameter operations",
 "Unit tests use a handful of keys; the concurrency test is not built here.",
 [I+"GenericParameters.h","src/GenericParameters.cc"],
 [("per-type maps with one mutex each",I+"GenericParameters.h")])
p("C11","Collection IDs are stable and resolve both ways",
 "The ID of a collection name is a fixed function of the name (32-bit Murmur3 with seed zero), the same in every process, table and order of registration, so files written at different times agree. For every history of additions and lookups, also from several threads, a table reports present exactly the names added, maps each name to its ID and that ID back to the name, keeps names and IDs in matching order without repetition, and adding a known name again returns the same ID and changes nothing. Unknown names and IDs are reported as absent.",
 ["inputs","histories","schedules"],"all name sets, operation sequences and interleavings",
 "Tests use a few names.",
 ["src/CollectionIDTable.cc",I+"CollectionIDTable.h","src/MurmurHash3.cpp",I+"detail/../ObjectID.h"],
 [("add/collectionID/name/present",  "src/CollectionIDTable.cc"),("hash","src/MurmurHash3.cpp")])
p("C12","Links carry exactly their two ends and weight",
 "A link between any two (equal or different, concrete or interface) types returns exactly the last From, To and weight stored, by name, by type and by structured binding, defaults to unset ends and weight one, and links as well as link collections behave like any other generated type: container, subset, clone, equality, ordering, ID, write and read. Both ends of every link resolve after reading to the elements they were written with, and an unset end stays unset.",
 ["inputs","histories"],"all link types and operation histories, including write/read",
 "Link tests are not built here and cover few type combinations.",
 [I+"detail/Link.h",I+"detail/LinkObj.h",I+"detail/LinkCollectionImpl.h",I+"detail/LinkCollectionData.h",I+"detail/LinkCollectionIterator.h",I+"detail/LinkSIOBlock.h",I+"LinkCollection.h"],
 [("LinkT",I+"detail/Link.h"),("LinkCollectionData",I+"detail/LinkCollectionData.h")])
p("C13","Link navigation returns exactly the linked objects",
 "For every link collection a navigator returns, for any object of either end type, exactly the objects it is linked to with the weight of each link: every link counted once, both directions consistent with each other, and nothing for objects without links. This includes repeated links, self-links and links between objects of the same type with explicit direction, and holds for objects looked up through other handles, interfaces or subset collections.",
 ["inputs"],"all link collections, any multiplicity and direction",
 "Tests use a few fixed links.",
 [I+"LinkNavigator.h"],
 [("from/to lookup multimaps",I+"LinkNavigator.h")])
p("C14","Interface handles are transparent stand-ins for the wrapped object",
 "An interface handle built from any of its types (const or mutable) reports exactly that type and no other, gives back an equal handle of that type and refuses every other type with an exception, and every interface member and ID it shows equals the wrapped object's at all times. Equality, ordering, hashing, copying, assignment, swapping, emptying and availability follow the wrapped object: two interface handles are equal exactly if they wrap the same object, and comparing with concrete handles agrees. Relations through an interface resolve to the original object of the original type, also after writing and reading.",
 ["inputs","histories"],"all interface types x wrapped types x operation sequences",
 "Tests instantiate few combinations and are not built here.",
 [T+"Interface.h.jinja2",T+"macros/interface.jinja2",I+"utilities/TypeHelpers.h"],
 [("type-erased Concept/Model",T+"Interface.h.jinja2")])
p("C15","User data collections are faithful typed arrays",
 "A user data collection of any supported type behaves like the corresponding sequence of values under every history of appending, resizing, indexing, iterating, conversion from a vector, moving, swapping and clearing, with checked access throwing out_of_range. Values are bit-identical after storing in a Frame and after writing and reading, its type names are those registered for that type, and requests that make no sense for it (references, subset) are refused or have no effect as documented.",
 ["inputs","histories"],"all supported value types x operation histories",
 "Only two value types are tested, in binaries not built here.",
 [I+"UserDataCollection.h","src/UserDataCollection.cc"],
 [("UserDataCollection",I+"UserDataCollection.h")])
p("C16","Buffers are created, evolved and owned exactly as requested",
 "For every registered collection type and version, requested buffers are empty, complete (storage for data, vector members and references exactly as that type's current layout needs) and of the requested kind, and turning them into a collection and back loses nothing; an unknown type or version gives no buffers rather than a wrong one or undefined behaviour. When data of an older schema version is read, exactly the evolution registered for that type and version is applied, once, to the current version, user-provided functions take precedence over automatic ones whatever the order of registration, and data already at the current version is never changed. Buffer objects that are never turned into a collection can be released without leak.",
 ["inputs","histories","configurations"],"all types, versions, registration orders and buffer uses",
 "Schema evolution tests need ROOT; registry histories are not tested at all.",
 ["src/CollectionBufferFactory.cc","src/SchemaEvolution.cc",I+"CollectionBuffers.h",I+"SchemaEvolution.h",I+"CollectionBufferFactory.h",T+"macros/collections.jinja2"],
 [("version map of creation functions","src/CollectionBufferFactory.cc"),("evolution registry","src/SchemaEvolution.cc")])
p("C17","JSON and text output show exactly the collection's content",
 "The JSON of any object, component, link or collection is an object per element holding every member, vector member and relation exactly once under its declared name with exactly its value, relations given as the IDs of the related objects in order (null-like when unset or not available), and subset collections as the IDs of their elements. Text output of an object shows its ID, every member, vector member and relation; the table of a collection shows, for each element in order, its ID and every member that is no array, its vector members and the IDs of related objects. Output changes neither the objects nor the formatting state of the stream, and never fails for unset or unavailable relations and elements or for empty collections, however objects are related to each other.",
 ["inputs"],"all types and values",
 "One ostream test checks one stable example; JSON is not tested in this build.",
 [T+"Object.cc.jinja2",T+"Collection.cc.jinja2",T+"Component.h.jinja2",T+"macros/declarations.jinja2",I+"detail/Link.h",I+"detail/LinkCollectionImpl.h",I+"ObjectID.h",T+"macros/implementations.jinja2"],
 [("to_json / operator<<",T+"Object.cc.jinja2")])
p("C18","The registered datamodel is the one the code was generated from",
 "Every generated datamodel registers itself once under its name, with its schema version, its version if given, the names and relations of its types, and a definition that parses back to a datamodel equivalent to the original; generating code again from that embedded definition gives the same data layout and API. Looking up unknown models or types is reported as documented and never corrupts or returns another model's information, registering again changes nothing, and the definitions and versions collected while writing are exactly those of the models whose collections were written, each once, and are given back unchanged on reading.",
 ["inputs","configurations","histories"],"all datamodels and registration/lookup histories",
 "Tests need ROOT I/O.",
 ["src/DatamodelRegistry.cc","src/DatamodelRegistryIOHelpers.cc",I+"DatamodelRegistry.h",I+"utilities/DatamodelRegistryIOHelpers.h",T+"DatamodelDefinition.h.jinja2","python/podio_gen/generator_utils.py"],
 [("registerDatamodel","src/DatamodelRegistry.cc"),("DataModelJSONEncoder","python/podio_gen/generator_utils.py")])
p("C19","Every valid datamodel generates code that compiles and has the stated API",
 "For every datamodel definition allowed by the documented syntax, with every combination of options and with upstream datamodels, code generation succeeds and the produced C++ compiles without errors. The generated types have exactly the members, types, defaults, relations, links, interfaces and extra code of the definition with the names the chosen getter syntax and options prescribe. The data structures are plain-old-data with exactly the declared members in a layout with no hidden state.",
 ["programs","configurations"],"all valid datamodel definitions x generator options",
 "Two fixed definitions are compiled by the build.",
 ["python/podio_gen/cpp_generator.py","python/podio_gen/generator_base.py","python/podio_gen/podio_config_reader.py","python/podio_gen/generator_utils.py","python/templates"],
 [("jinja templates + preprocessing","python/podio_gen/cpp_generator.py")])
p("C20","Invalid datamodel definitions are rejected, valid ones are read exactly",
 "Reading a datamodel definition succeeds exactly for definitions the documented syntax allows, and then yields exactly the declared components, datatypes, links, interfaces, members, relations, defaults, units, descriptions, options and schema version. Any definition that refers to unknown or forbidden types, redefines a name, violates the rules for components, datatypes, interfaces or links, has an unknown category in one of them or lacks mandatory information is rejected with a datamodel-definition error before any code is written.",
 ["inputs"],"all definitions, valid or with any single or multiple faults",
 "The python tests check one mutation per rule on one base model.",
 ["python/podio_gen/podio_config_reader.py","python/podio_gen/generator_utils.py"],
 [("ClassDefinitionValidator","python/podio_gen/podio_config_reader.py")])
p("C21","Code generation is deterministic, minimal and honest about its outputs",
 "Generating code from the same definition always produces byte-identical files, whatever the process, hash seed, locale, working and output directory and the formatting of the definition file, and whatever was in the output directory before: earlier output, output of another version of the model, damaged files or what an interrupted run left. A file whose content would not change is left untouched, a changed one is brought up to date, files that are not generated are left alone, nothing outside the requested output directory is written, and the written list of generated files names exactly the files produced. A dry run neither creates nor changes any generated file.",
 ["inputs","histories","configurations"],"all definitions, options and prior states of the output directory",
 "Not tested.",
 ["python/podio_gen/generator_base.py","python/podio_gen/cpp_generator.py","python/podio_class_generator.py"],
 [("write_file_if_changed, _write_file, _write_cmake_lists_file","python/podio_gen/generator_base.py")])
p("C22","Member definitions parse to exactly what they say",
 "Every member definition string that follows the documented form (type, name, optional default, optional unit, optional description, any number of spaces between them, any content) is parsed to exactly the stated type, name, default, unit and description, for builtin, fixed-width, namespaced and array types and for relations and vector members. The parsed definition written out as text parses again to an equal definition. Strings that do not follow the form are rejected with a definition error and nothing is silently dropped or altered.",
 ["inputs"],"all member definition strings",
 "A fixed table of example strings.",
 ["python/podio_gen/podio_config_reader.py","python/podio_gen/generator_utils.py"],
 [("MemberParser regexes","python/podio_gen/podio_config_reader.py"),("MemberVariable","python/podio_gen/generator_utils.py")])
p("C23","Schema comparison finds every difference and judges it as documented",
 "Comparing two versions of a datamodel reports exactly their differences: every added or removed component, datatype, member, vector member and relation and every changed type, as a rename where a declared migration covers exactly it, and nothing for equal models however their definition is ordered or formatted. Differences that cannot be evolved automatically (vector members and relations added or removed, a member changed to, from or between components and other types) are errors with a failing exit, evolvable differences are accepted, and possible renames that are not declared are only warned about. Migration files are accepted exactly if they follow the documented format, and no pair of valid models makes the tool crash.",
 ["inputs"],"all pairs of datamodels and migration files",
 "Fourteen fixed single-change examples.",
 ["python/podio_schema_evolution.py","python/podio_gen/podio_config_reader.py"],
 [("DataModelComparator/DataModelJudge","python/podio_schema_evolution.py")])
p("C24","Versions are totally ordered and survive every encoding",
 "Version comparison is a total order, lexicographic in major, minor and patch, and all comparison operators are consistent with each other. Every version converts to its encoded number and back and to its text form without loss, encoded numbers order like versions, and the build version is that of the source tree. A datamodel version given to the code generator is accepted exactly if it has the documented form and then appears unchanged in the generated datamodel; other text is rejected.",
 ["inputs"],"all 48-bit version triples and all version strings",
 "One or two triples and strings.",
 ["podioVersion.in.h","python/podio_class_generator.py","python/templates/DatamodelDefinition.h.jinja2"],
 [("Version operators, PODIO_VERSION macros","podioVersion.in.h"),("parse_version","python/podio_class_generator.py")])
p("C25","Iterators and column access agree with indexed access",
 "For every collection (owning, subset, link, user data, empty, large, freshly built or read back) all iterators and ranges, forward, const, reverse and random access, visit exactly the elements in index order and satisfy the laws of random access: arithmetic, difference, ordering, subscripting and comparison all agree with positions. Reading one member of all or the first n elements gives exactly the values of that member in order, limited to the collection size. Standard algorithms give the same result over a collection as over a plain vector of its elements.",
 ["inputs"],"all collections and iterator expressions",
 "Iterator tests check types more than values and are not built here.",
 [T+"Collection.h.jinja2",T+"macros/iterator.jinja2",T+"Collection.cc.jinja2",T+"macros/collections.jinja2",I+"detail/LinkCollectionIterator.h"],
 [("generated iterators",T+"macros/iterator.jinja2"),("vectorised accessors",T+"macros/collections.jinja2")])
p("C26","Concurrent use of shared immutable data is race free",
 "Once filled, collections, their elements, subset collections, links and interfaces may be read, iterated, printed, navigated, copied as handles and dropped, and their collections prepared for writing, by any number of threads at once without data race. All threads observe the same values and the same write buffers as a single thread would. Creating and destroying handles to shared objects in many threads neither loses nor doubles the release of any object.",
 ["schedules"],"all interleavings of const use and handle life times",
 "No multi-threaded test of collections exists.",
 [I+"utilities/MaybeSharedPtr.h",T+"Collection.cc.jinja2",I+"detail/LinkCollectionImpl.h",T+"macros/collections.jinja2",I+"LinkNavigator.h"],
 [("atomic reference count",I+"utilities/MaybeSharedPtr.h"),("mutex-protected prepareForWrite",T+"Collection.cc.jinja2")])
p("C27","Code generated with older schema versions keeps their data readable",
 "For every datamodel and every set of its older versions, in any order, code generation succeeds if all differences can be evolved or are declared in the evolution file, and ends with a failing exit otherwise. The generated code compiles and holds, beside the current types, every older version of every component and every still existing or renamed datatype with exactly the members and layout its old definition states, in a namespace of that version, and lists them all for ROOT. Each declared renaming of a member or datatype has exactly one conversion rule per affected old version, which copies the old value unchanged to its new place, and buffers requested for a collection of any older version, or for a renamed datatype under its old name, are buffers of the current collection type.",
 ["inputs","histories"],"all datamodels and histories of their versions",
 "A dozen fixed pairs of models that need ROOT to build.",
 ["python/podio_gen/cpp_generator.py","python/podio_schema_evolution.py","python/podio_gen/generator_utils.py",T+"Data.h.jinja2",T+"Component.h.jinja2",T+"selection.xml.jinja2",T+"Collection.cc.jinja2"],
 [("_pre_process_schema_evolution, _prepare_iorules, _create_selection_xml","python/podio_gen/cpp_generator.py"),("qualified_as_version","python/podio_gen/generator_utils.py")])
p("C28","SIO files give back exactly the frames written, in order",
 "Reading an SIO file, with the SIO reader or the general reader and in any order of categories, entries and repetitions, gives for each category exactly the frames written under it, in order, each with exactly the requested and available collections and all parameters, whatever writer wrote them; beyond the last entry there is nothing. Categories, entry counts, the podio and datamodel versions and the definitions of all datamodels used are those of the writer, readers and writers can be moved and readers used again for another file. A file ending .sio is written and read with SIO and other endings with the backend asked for, while missing, cut or unsuitable files, unknown backends and writes that cannot be done or completed end in an exception, never in wrong data or undefined behaviour.",
 ["inputs","histories","crash_points"],"all sequences of frames and read orders, all cuts of a file",
 "The SIO tests are not built here as the SIO library is missing.",
 ["src/SIOReader.cc","src/SIOWriter.cc","src/SIOFrameData.cc","src/SIOBlock.cc","src/sioUtils.h","src/SIOBlockUserData.cc","include/podio/SIOBlock.h","src/Writer.cc","src/Reader.cc",T+"SIOBlock.cc.jinja2"],
 [("SIOReader::readNextEntry, readFileTOCRecord","src/SIOReader.cc"),("SIOWriter::writeFrame, finish","src/SIOWriter.cc"),("makeWriter","src/Writer.cc"),("makeReader","src/Reader.cc")])
p("C29","podio-dump shows exactly what a file contains",
 "For every readable file podio-dump states the podio version and the names and versions of the datamodels it was written with, and all categories with their numbers of entries. For each entry asked for, once each and in the order asked for (the first one by default, single ones, lists, and ranges with both ends included), it lists exactly the available collections with name, subset flag, value type, size and ID and exactly the parameters with name, type and number of values, in case-insensitive alphabetical order, or prints all of them in full; entries, categories or models that do not exist and bad arguments give a message and a failing exit status, never other data or a crash. A datamodel definition it dumps as YAML is the one the file was written with and generates the same code.",
 ["inputs"],"all file contents x all command line arguments",
 "The tool is only run by tests that need files and a ROOT or SIO installation, on one example file, and only its exit status is looked at.",
 ["tools/src/podio-dump-tool.cpp","tools/src/tabulate.h","tools/src/argparseUtils.h","include/podio/utilities/MiscHelpers.h","src/DatamodelRegistryIOHelpers.cc","src/GenericParameters.cc"],
 [("parseEventRange, printCollectionInfo, printParameterInfo","tools/src/podio-dump-tool.cpp"),("printTable","tools/src/tabulate.h"),("splitString, sortAlphabeticaly","include/podio/utilities/MiscHelpers.h")])
p("C30","File patterns and library paths find exactly what is there",
 "Expanding a pattern gives exactly the existing paths that match it by the rules of shell patterns (stars, question marks, bracket expressions, braces, a leading tilde, backslashes, hidden names), sorted within each alternative of the braces. A path without wildcards is given back as it is, a pattern that matches nothing is an error, and a text is called a pattern exactly if it has an unescaped wildcard or brace, so that a reader made for a pattern reads exactly the matching file. SIO block libraries are loaded from all directories of PODIO_SIOBLOCK_PATH, or else of LD_LIBRARY_PATH, in that order and each name once; what is no directory is skipped, broken libraries are reported without harm, and finding none in PODIO_SIOBLOCK_PATH is an error.",
 ["inputs","configurations"],"all trees of files x all patterns, all contents of the search path",
 "Only tests that need ROOT files expand a single pattern; loading libraries is never tested.",
 ["src/Glob.cc","include/podio/utilities/Glob.h","src/Reader.cc","src/SIOBlock.cc","include/podio/SIOBlock.h"],
 [("expand_glob, is_glob_pattern","src/Glob.cc"),("SIOBlockLibraryLoader::getLibNames, loadLib","src/SIOBlock.cc"),("makeReader","src/Reader.cc")])
p("C31","Arrow tables hold the frames and give them back",
 "Turning a frame into an Arrow table gives one row with one column for each requested collection, which holds exactly its elements with all members, vectors, relations, subset references and link ends, under the names and with the types of the datamodel, and its value type, ID, subset mark and schema version, plus one column with all parameters of the frame. Any row of such a table, also after tables have been put together in any number of pieces, cut or got fewer columns, gives a frame with exactly the collections, contents, relations, IDs and parameters of the one it was made from, whichever part of it is read and in any order. Missing or unknown rows, tables and metadata, and frames with collections that are not there or cannot be stored end in an exception, never in wrong data or undefined behaviour.",
 ["inputs","histories"],"all frames of all datamodels, all ways to put tables together and take rows",
 "The Arrow tests are not built here as the Arrow library is missing; upstream converts one example frame.",
 ["src/ArrowFrameConverter.cc","src/ArrowFrameData.cc","src/ArrowConverterRegistry.cc","src/ArrowTypeRegistry.cc","include/podio/utilities/ArrowFrameConverter.h","include/podio/utilities/ArrowFrameData.h","python/podio_gen/cpp_generator.py",T+"ArrowMapper.cc.jinja2",T+"macros/arrow.jinja2"],
 [("convertFrameToTable, convertTableToFrame","src/ArrowFrameConverter.cc"),("ArrowFrameData::getCollectionBuffers, getParameters","src/ArrowFrameData.cc"),("_arrow_fields, _get_arrow_metadata","python/podio_gen/cpp_generator.py")])
p("C32","Generated Julia modules can be loaded and mirror the datamodel",
 "For every valid datamodel, also one extending an upstream datamodel, the generated Julia module can be loaded, that is every name it uses is defined before, and it exports exactly the components, datatypes and collections of the definition, apart from what Julia does not support: interfaces, links, and all datatypes that depend on an interface through their relations, directly or through others. Each of them is a structure with the declared members, vector members and relations, with the Julia types that correspond to the declared ones, components and upstream types included, and can be constructed without arguments or with arguments that each end up in the field of their name. A relation takes objects of exactly the declared datatype, one to one relations can be empty, and a collection holds the objects its datatype's constructor makes.",
 ["inputs"],"all valid datamodels",
 "The Julia tests are not run here, as there is no Julia; upstream loads one example datamodel and an extension of it.",
 ["python/podio_gen/julia_generator.py","python/podio_gen/generator_utils.py",T+"MutableStruct.jl.jinja2",T+"ParentModule.jl.jinja2",T+"macros/julia_helpers.jinja2"],
 [("JuliaClassGenerator","python/podio_gen/julia_generator.py"),("get_julia_type","python/podio_gen/generator_utils.py")])
p("C33","ROOT files hold the frames and give them back",
 "A file written by the ROOT writers, as trees or as ntuples, has exactly the categories, numbers of entries, datamodel definitions and versions it was written with, and each entry read back, in any order, one after the other or by number, completely or in part, gives the collections of the frame written there with all contents, relations, IDs and parameters. This also holds when several files are read as one, when the reader is gone before the frame is looked at, when the frame is written again, and when the file is an older one with one branch of parameters, numbered branches, or without names or schema versions of the collections. Unknown categories and entries beyond the end give nothing, unknown collections and files that cannot be opened or made are errors, asking for the next entry with an unknown collection skips nothing, and the sizes of collections are given for exactly those that are there.",
 ["inputs","histories"],"all frames of all datamodels, all sequences of writes and reads",
 "The ROOT tests are not built here as ROOT is missing; upstream writes and reads a few example frames and files of older versions.",
 ["src/ROOTWriter.cc","src/ROOTReader.cc","src/RNTupleWriter.cc","src/RNTupleReader.cc","src/rootUtils.h","src/ROOTFrameData.cc",I+"ROOTReader.h",I+"RNTupleReader.h",I+"utilities/RootHelpers.h","src/Reader.cc","src/Writer.cc"],
 [("writeFrame, initBranches, resetBranches, finish","src/ROOTWriter.cc"),("readEntry, initCategory, openFiles, getSizeStats","src/ROOTReader.cc"),("writeFrame, createModels, finish","src/RNTupleWriter.cc"),("readEntry, openFiles","src/RNTupleReader.cc"),("setCollectionAddressesReader, getGPBranchOffsets","src/rootUtils.h")])
p("C34","ROOT writers keep the layout of a category and refuse what does not fit",
 "The first frame of a category decides which collections of which types all its entries have: a frame that lacks some of them or has other types under their names, a request for other names, also ones that only differ in case, and collections that would share a place in the file are refused with an exception. A refused write leaves no trace: the file holds, and later writes and reads see, exactly what they would if it had not been tried. Comparing a list of names with a category names exactly the ones that are missing from it and the ones that are too many, whatever their order.",
 ["inputs","histories"],"all sequences of fitting and unfitting writes to any number of categories",
 "The ROOT tests are not built here as ROOT is missing; upstream tries one inconsistent frame per writer.",
 ["src/ROOTWriter.cc","src/RNTupleWriter.cc","src/rootUtils.h",I+"ROOTWriter.h",I+"RNTupleWriter.h"],
 [("writeFrame, checkConsistency","src/ROOTWriter.cc"),("writeFrame, checkConsistency","src/RNTupleWriter.cc"),("checkConsistentColls, getInconsistentColls","src/rootUtils.h")])
p("C35","Data sources give all events to every loop, threads can read at the same time",
 "A podio DataSource for RDataFrame on one or more files has one column for each collection that was asked for (all if none was), with its type, and in every event loop, the first as well as later ones, its entry ranges cover each of the first N events exactly once, N being the number of events asked for or all there are if fewer. What a column shows after an entry has been set in a slot is the collection of that event with all contents, whatever the other slots do at the same time in other threads; no files, no events, unknown collections and unknown columns are errors. Threads that have readers and writers of their own, for the same or other files, do not disturb each other and have no data races.",
 ["inputs","schedules","histories"],"all files, columns, numbers of events and slots, sequences of event loops, all interleavings of threads with own readers and writers",
 "The ROOT tests are not built here as ROOT is missing; upstream runs one loop over one file, and reads and writes example files in threads without a race detector.",
 ["src/DataSource.cc",I+"DataSource.h","src/ROOTReader.cc","src/RNTupleReader.cc","src/ROOTWriter.cc","src/RNTupleWriter.cc","src/Reader.cc"],
 [("SetupInput, SetNSlots, Initialize, GetEntryRanges, SetEntry, GetColumnReadersImpl","src/DataSource.cc"),("getCategoryInfo","src/ROOTReader.cc")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
for d in P:
    for f in d["anchors"]["files"]:
        import os
        if not os.path.exists("/repo/"+f): print("missing",d["id"],f)
    if d["statement"].count(". ")>2: print("sentences",d["id"],d["statement"].count(". "))
