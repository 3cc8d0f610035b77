"""What each check builds and runs."""
from . import pychecks
from .runner import Run


def model(flavour="asan", defines=(), **exes):
    return dict(flavour=flavour, model=True, defines=defines, exes={k: (v if isinstance(v, list) else [v]) for k, v in exes.items()})


WORLD = ("random histories of 30 to 200 handle and collection operations over 12 handle slots and 6 collections of 1 to 4 related types, "
         "judged against a reference model after every operation; distinct by the sequence of operations and the types, every history is non-trivial")

def core(flavour="asan", **exes):
    return dict(flavour=flavour, model=False, exes={k: (v if isinstance(v, list) else [v]) for k, v in exes.items()})


CHECKS = {
    "C01": dict(
        build=[model(d_frame="d_frame.cc")],
        runs=[Run("d_frame", 3000, 60000)],
        evaluations="events",
        rule="random events (collections of all datatypes, links, user data, subsets, relations, parameters) put into a Frame, written to and read back from an in-memory "
             "backend 1 to 3 times, everything shown compared with a reference model; distinct by the shape (types, sizes, relation counts), non-trivial with at least one relation set"),
    "C02": dict(
        build=[model(d_frame="d_frame.cc")],
        runs=[Run("d_frame", 3000, 60000, args=dict(mode="partial"))],
        evaluations="partial_reads",
        rule="random events written, then read with random subsets of the collections (none, all but one, half, most); every reference compared with the model: resolved when its "
             "collection is there, not available otherwise; distinct by kept names and event shape"),

    "C03": dict(build=[model(d_world="d_world.cc")], runs=[Run("d_world", 2000, 100000, args=dict(mode="coll"))], evaluations="histories", rule=WORLD),
    "C04": dict(build=[model(d_world="d_world.cc")], runs=[Run("d_world", 4000, 100000, args=dict(mode="subset"))], evaluations="histories", rule=WORLD),
    "C05": dict(build=[model(d_world="d_world.cc")], runs=[Run("d_world", 4000, 100000, args=dict(mode="handle"))], evaluations="histories", rule=WORLD),
    "C06": dict(build=[model(d_world="d_world.cc")], runs=[Run("d_world", 2000, 60000, args=dict(mode="mixed", leak=1))], evaluations="histories", rule=WORLD),
    "C07": dict(build=[model(d_world="d_world.cc")], runs=[Run("d_world", 2000, 100000, args=dict(mode="member"))], evaluations="histories", rule=WORLD),

    "C08": dict(build=[model(d_store="d_store.cc")], runs=[Run("d_store", 2000, 150000)], evaluations="histories",
                rule="histories of 8 to 30 steps (put new, put a stored or still unread name, get, get missing, get as a wrong type, parameters, move the Frame, compare everything) on a Frame "
                     "started empty, built in memory or from input data, against a model; distinct by steps and content"),
    "C09": dict(build=[model("tsan", d_conc="d_conc.cc")], runs=[Run("d_conc", 2000, 300000, args=dict(mode="frame"), shards=6, timeout=150)], evaluations="histories",
                rule="2 to 6 threads with 4 to 14 random operations each (get, typed get, list, names, ID table, get for write, put, parameters) on one Frame, in memory or lazily unpacked from "
                     "an in-memory backend with random delays, under ThreadSanitizer; distinct by the observed order of the operations of all threads"),
    "C10": dict(build=[core(d_params="d_params.cc"), core("tsan", d_params_t="d_params.cc")],
                runs=[Run("d_params", 20000, 800000, args=dict(mode="seq")), Run("d_params_t", 8000, 300000, args=dict(mode="conc"), shards=4)], evaluations="histories",
                rule="sequential histories of 10 to 60 operations on three parameter objects against a model, and histories of 4 threads with 4 to 14 operations each on 3 shared keys under "
                     "ThreadSanitizer, judged per key as a register with real-time intervals, with atomic snapshots by copying; distinct by operations and observed intervals"),
    "C11": dict(build=[core(d_ids="d_ids.cc"), core("tsan", d_ids_t="d_ids.cc")],
                runs=[Run("d_ids", 4000, 400000, args=dict(mode="seq")), Run("d_ids_t", 3000, 300000, args=dict(mode="conc"), shards=4)], evaluations="histories",
                rule="histories of 5 to 80 operations on an ID table with names of all lengths and bytes, against a model and an independent implementation of the hash, and 2 to 6 threads "
                     "registering and looking up shared names under ThreadSanitizer; distinct by names registered and by observed order"),
    "C12": dict(build=[model(d_link="d_link.cc", d_world="d_world.cc", d_frame="d_frame.cc")],
                runs=[Run("d_link", 3000, 300000, args=dict(mode="link")), Run("d_world", 500, 50000, args=dict(mode="mixed", only="links")),
                      Run("d_frame", 200, 20000, args=dict(only="links"))], evaluations="histories",
                rule="histories of 6 to 40 operations on links of six types (equal, different, namespaced, upstream and interface ends) through all setters and getters, handles and clones; world "
                     "histories and Frame round trips with links and the types they link; distinct by operations and types"),
    "C13": dict(build=[model(d_link="d_link.cc")], runs=[Run("d_link", 30000, 600000, args=dict(mode="nav"))], evaluations="histories",
                rule="random link collections (0 to 25 links, repeats, self links, unset ends, subsets of links, six link types) navigated from every end through different handles, before and "
                     "after writing and reading; distinct by the links"),
    "C14": dict(build=[model(d_iface="d_iface.cc", d_frame="d_frame.cc")],
                runs=[Run("d_iface", 6000, 600000), Run("d_frame", 300, 30000, args=dict(only="ifaces"))], evaluations="histories",
                rule="histories of 10 to 50 operations (wrap, copy, move, swap, empty, unlink, drop, change the object behind, let go of the concrete handles, add to collections) on 8 handles of "
                     "three interfaces against a model of the wrapped objects; Frame round trips of types with relations through interfaces; distinct by operations and slots"),
    "C15": dict(build=[core(d_user="d_user.cc")], runs=[Run("d_user", 8000, 500000)], evaluations="histories",
                rule="histories of 10 to 60 operations (append, resize, index, iterate, clear, move, swap, take a vector or range, IDs, buffers, Frames read back twice) on four collections of one of "
                     "the ten types against vectors; distinct by type and operations"),
    "C16": dict(build=[model(d_buf="d_buf.cc")], runs=[Run("d_buf", 10000, 600000)], evaluations="histories",
                rule="histories of registering evolution and creation functions for up to 6 versions in random order against a model, buffers of all real types created, moved, dropped and turned into "
                     "collections, Frames read from data of older versions with user-defined evolutions; distinct by registrations, operations and versions"),
    "C26": dict(build=[model("tsan", d_conc="d_conc.cc")], runs=[Run("d_conc", 2000, 300000, args=dict(mode="const"), shards=6, timeout=150)], evaluations="histories",
                rule="2 to 6 threads with 4 to 16 random read operations each (compare with the model, prepare for write, print, copy and drop handles, clone, build subset collections, release the "
                     "last handles) on shared filled collections under ThreadSanitizer; distinct by the observed order of the operations of all threads"),
    "C25": dict(build=[model(defines=("VF_ITER=1",), d_iter="d_iter.cc")], runs=[Run("d_iter", 400, 60000)], evaluations="histories",
                rule="random events; every collection (owning, subset, link, user data, empty, large) when built, in a Frame, after writing and after reading: all iterator kinds against the laws "
                     "of random access and the indexed elements, ranges and algorithms against a vector, columns with every kind of limit against the model; distinct by state, type, kind and size"),
    "C20": dict(runs=[Run("p_read.py", 800, 40000)], evaluations="definitions_read",
                rule="random valid definitions (with and without upstream datamodel, random YAML form, extra code inline and from files) read and compared item by item with what was declared; "
                     "definitions with exactly one defect of about 40 kinds must be rejected with a definition error, at the command line without any file written; distinct by text"),
    "C22": dict(runs=[Run("p_parse.py", 8000, 100000)], evaluations="definitions",
                rule="member definitions built from random types, names, defaults, units and descriptions with random spacing, compared with what they state and written out and parsed again; "
                     "strings malformed in one of about 50 ways must be rejected; mutated strings are rejected or nothing of them is lost; distinct by definition without spaces"),
    "C19": dict(build=[core(d_vers="d_vers.cc")], python=[pychecks.models, pychecks.includes], evaluations="models",
                rule="random valid datamodels with all options, defaults, arrays, nested components, relations, interfaces, links, extra code and upstream datamodels generated, each file compiled "
                     "(some alone), linked and run with a probe made from the definition that checks types, members, layout, defaults, getters, setters, relations and registration under ASan/UBSan; the headers included by the files of further models looked for"),
    "C27": dict(build=[core(d_vers="d_vers.cc")], python=[pychecks.evolution], evaluations="histories",
                rule="random datamodels edited into one to three newer versions, the newest generated together with the older ones and the declared renames: accepted or refused, classes and "
                     "conversion rules for ROOT, layouts of all old versions compared with structures written from their definitions, rules run, buffers made for all versions and old names under ASan/UBSan"),
    "C21": dict(runs=[Run("p_gen.py", 160, 12000)], evaluations="generator_runs",
                rule="random definitions (options, I/O handlers, upstream, julia, clang-format) generated about 8 times each in processes of random hash seed, locale, paths and caches: into empty, "
                     "damaged, foreign, outdated directories and after being killed at a random write; trees compared byte for byte and by time stamp, all file operations recorded by an audit hook; "
                     "distinct by definition"),
    "C23": dict(runs=[Run("p_evol.py", 8000, 400000)], evaluations="histories",
                rule="random datamodels and edited versions of them (0 to 6 edits of about 20 kinds, reordered and reformatted), compared in both directions and through the command line and the "
                     "code generator, with matching, partial and malformed migration files, against the differences of the definitions; distinct by pair"),
    "C24": dict(build=[core(d_vers="d_vers.cc")], runs=[Run("d_vers", 2000, 400000), Run("p_vers.py", 80, 4000)], python=[pychecks.versions], evaluations="histories",
                rule="sets of 2 to 32 versions with near and extreme parts compared pairwise, sorted, written and read back; 600 random literal versions encoded, decoded and ordered at compile time and in "
                     "the preprocessor; valid and invalid version texts given to the generator, versions of generated and compiled datamodels; distinct by versions and texts"),
    "C17": dict(build=[model(defines=("VF_JSON", "PODIO_JSON_OUTPUT=1"), d_text="d_text.cc")],
                runs=[Run("d_text", 400, 40000)], evaluations="histories",
                rule="random events printed as text and JSON (collections, elements, free and empty handles, user data) when built, after reading and after reading in part; the output "
                     "is parsed and compared with the reference model, the stream state before and after compared; distinct by types and sizes"),
    "C18": dict(build=[model(d_model="d_model.cc")], runs=[Run("d_model", 1600, 40000, shards=8), Run("p_embed.py", 400, 20000)], python=[pychecks.embedded], evaluations="histories",
                rule="histories of registering models again and anew, looking up known and unknown models, types and indices, collecting definitions while writing and holding them after reading, against "
                     "a model; random definitions generated, the embedded definition read back and compared, and generated from again with identical output; distinct by steps and by definition"),
    "C28": dict(build=[model(defines=("VF_SIO",), d_sio="d_sio.cc")],
                runs=[Run("d_sio", 1200, 40000), Run("d_sio", 300, 10000, args=dict(mode="cut")), Run("d_sio", 300, 3000, args=dict(mode="backend"))], python=[pychecks.io_models("SIO")], evaluations="files",
                rule="random events written to SIO files in up to five categories, completely or in part, through the SIO and the general writer, and read in random order, in part, beyond the end and "
                     "after the file is gone through the SIO and the general reader, against a model of the file; files cut off at random places; backends chosen for names, types and environments; "
                     "distinct by what the file holds"),
    "C29": dict(build=[model(defines=("VF_SIO",), d_sio="d_sio.cc", **{"podio-dump-tool": "dump_tool.cc"})],
                runs=[Run("d_sio", 400, 8000, args=dict(mode="dump"))], python=[pychecks.dumped_models], evaluations="dumps",
                rule="random files with up to ten categories, shown by the dump tool as a whole process with random, also bad, arguments, its tables and texts read back and compared to a model "
                     "of the file; distinct by arguments and output"),
    "C31": dict(build=[model(defines=("VF_ARROW",), d_arrow="d_arrow.cc")], runs=[Run("d_arrow", 2000, 60000), Run("d_arrow", 2000, 40000, args=dict(mode="bad"))], python=[pychecks.io_models("ARROW")], evaluations="events",
                rule="random events of one layout turned into tables one by one, the tables decoded without podio and compared with the events, put together in one or several pieces, cut, with other "
                     "columns, and any row read back, also again and again; conversions that cannot be done; against a stand-in of Arrow that checks each access; distinct by columns and pieces"),
    "C32": dict(runs=[Run("p_julia.py", 600, 24000)], evaluations="histories",
                rule="random datamodels (with and without upstream, interfaces, links, arrays, nested components) generated for Julia through the command line, the modules loaded by a stand-in that "
                     "looks each name up when Julia would, all constructors called, structures, relations, collections and exports compared with the definition; distinct by datamodel"),
    "C33": dict(build=[model(defines=("VF_ROOT",), d_root="d_root.cc")], runs=[Run("d_root", 3000, 60000)], python=[pychecks.io_models("ROOT")], evaluations="files",
                rule="random frames of one layout written to files of trees and of ntuples in up to four categories, completely or in part, one to three files read as one in random order, in part, "
                     "beyond the end, and looked at when the reader is gone, files as older versions wrote them, all against a model of the files and a stand-in of ROOT that copies what is written "
                     "and frees what ROOT would; distinct by what the file holds"),
    "C34": dict(build=[model(defines=("VF_ROOT",), d_root="d_root.cc")], runs=[Run("d_root", 3000, 60000, args=dict(mode="refuse"))], evaluations="files",
                rule="the same files with writes that have to be refused between the others (missing collections, incomplete relations, other names, other cases, other types, shared branches) and "
                     "comparisons of random lists of names, what is read afterwards compared with the model of a file without them; distinct by what the file holds"),
    "C35": dict(build=[model(defines=("VF_ROOT",), d_root="d_root.cc"), model("tsan", defines=("VF_ROOT",), d_root_t="d_root.cc")],
                runs=[Run("d_root", 2000, 40000, args=dict(mode="source"), shards=4), Run("d_root_t", 2000, 40000, args=dict(mode="source"), shards=4)], evaluations="loops",
                rule="data sources on random files of trees and of ntuples with random columns, numbers of events and slots, run through one to three event loops as RDataFrame does, slots in random order and in "
                     "threads, every column of every entry compared with the model; every third case has two to four threads with readers and writers of their own on the same and on other files, all of it "
                     "also under TSan; distinct by case"),
    "C30": dict(build=[model(defines=("VF_SIO",), d_files="d_files.cc")], runs=[Run("d_files", 1500, 20000)], python=[pychecks.plugins], evaluations="patterns",
                rule="random scratch trees of up to 25 files and directories and 30 patterns each made from their names, expanded and compared with an own matcher, readers made for patterns; "
                     "environments with random directories of good, broken and other libraries, the ones loaded seen by their constructors; distinct by tree and pattern"),
}

# the deciding method of each check
MODEL = "runtime monitoring of the real library and generated code under ASan/UBSan, judged online by an independent reference model"
TECHNIQUE = {
    "C01": MODEL + " of the Frame over repeated write/read generations in memory",
    "C02": MODEL + ", over Frames read with random subsets of their collections",
    "C06": "AddressSanitizer, UBSan and a leak monitor (allocation balance of repeated histories) over random valid API histories with a reference model",
    "C09": "ThreadSanitizer plus a trace checker over the recorded invocations and responses of concurrent threads on one Frame, with injected delays",
    "C10": "ASan/UBSan with a model for sequential histories; ThreadSanitizer and an offline linearizability check (register per key, atomic snapshots) for concurrent ones",
    "C11": "ASan/UBSan with a model and an independent MurmurHash for sequential histories; ThreadSanitizer and a trace checker for concurrent registration",
    "C26": "ThreadSanitizer plus a model comparison in every thread of concurrent histories of read-only operations on shared collections",
    "C16": "ASan/UBSan and a leak monitor over histories of registering, creating, moving and dropping buffers, against a model of the registered versions",
    "C17": "runtime monitoring: the printed text and JSON are parsed again and compared with a reference model of the data, under ASan/UBSan",
    "C18": "runtime monitoring of the registry and the collector against a model under ASan/UBSan; embedded definitions are read back and compared as data and by the code generated from them",
    "C19": "runtime monitoring of generated code: random datamodels are generated, compiled and run with a probe derived from the definition alone, under ASan/UBSan",
    "C20": "runtime monitoring of the definition reader on random valid and singly broken definitions against the abstract definition they were written from",
    "C21": "trace monitoring: an audit hook records every file operation of whole generator runs in hostile environments and interrupted at random writes; the trees are compared byte for byte",
    "C22": "runtime monitoring of the member parser on random and mutated texts against the parts they were composed of",
    "C23": "runtime monitoring of the schema comparison on random pairs of definitions against the differences computed from the abstract definitions",
    "C24": "runtime monitoring of versions at compile time, at run time and in the generator against tuples of numbers, under ASan/UBSan",
    "C25": "runtime monitoring of all iterators against the laws of random access iterators and the indexed elements, under ASan/UBSan",
    "C27": "runtime monitoring of generated evolution code: random histories of datamodels are generated, compiled and run, layouts and rules compared with the old definitions, under ASan/UBSan",
    "C28": "runtime monitoring of SIO readers and writers against a model of the file, with files cut at random places, under ASan/UBSan",
    "C31": "runtime monitoring of conversions between frames and Arrow tables under ASan/UBSan against a reference model, with an independent decoder of the tables and a stand-in of the library that checks accesses",
    "C32": "runtime monitoring of the Julia generator: its modules are run by an interpreting stand-in of Julia with type checks and compared with the definitions",
    "C33": "runtime monitoring of the writers and readers for ROOT files (trees and ntuples) under ASan/UBSan against a reference model, with a stand-in of ROOT that keeps deep copies of what is written and frees branches when ROOT would",
    "C34": "runtime monitoring of histories of fitting and unfitting writes to ROOT files under ASan/UBSan against a reference model of the file, with a stand-in of ROOT",
    "C35": "runtime monitoring of event loops and of readers and writers in threads under TSan and under ASan/UBSan against a reference model, with a stand-in of ROOT",
    "C30": "runtime monitoring of pattern expansion against an independent matcher on scratch trees, and of library loading through constructors that report themselves, under ASan/UBSan",
    "C29": "runtime monitoring of whole runs of the dump tool under ASan/UBSan: its output is parsed and compared with a model of the file",
}
for k, c in CHECKS.items():
    c.setdefault("technique", TECHNIQUE.get(k, MODEL))
