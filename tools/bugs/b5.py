"""Bugs of the Julia generator"""
UTILS = "python/podio_gen/generator_utils.py"
JULIA = "python/podio_gen/julia_generator.py"
GEN = '''
import os, re, subprocess, sys
R, W = os.environ["REPO"], os.environ["WORK"]
def gen(text, out, name, *args):
    os.makedirs(f"{W}/{out}", exist_ok=True)
    open(f"{W}/{name}.yaml", "w").write(text)
    r = subprocess.run([sys.executable, f"{R}/python/podio_class_generator.py", "-q", "-l", "julia", *args, f"{W}/{name}.yaml", f"{W}/{out}", name], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    read = lambda n: open(f"{W}/{out}/{name}/{n}.jl").read()
    return read, re.findall(r'include\\("(\\w+)Struct.jl"\\)', read(name.capitalize()))
'''


def bug_1():
    return dict(id="c32-vector-order", property="C32", needs="a datatype with a vector member of a component that itself holds components",
                breaks="the file of the datatype is included before the one of the component: the module cannot be loaded", edits=[
                    (JULIA, '''            if "VectorMembers" in component_data:
                for vector_member_data''', '''            if "VectorMembers" in component_data and not component_data["Members"]:
                for vector_member_data''')], py=GEN + '''
read, order = gen("""schema_version: 1
components:
  In: {Members: [int i]}
  Out: {Members: [In a]}
datatypes:
  Aaa:
    Description: d
    Author: a
    Members: [int n // n]
    VectorMembers: [Out o // o]
""", "out", "pkg")
assert order.index("Out") < order.index("Aaa"), order
''')


def bug_2():
    return dict(id="c32-static-arrays", property="C32", needs="components without array members together with datatypes that have them",
                breaks="the module uses MVector without importing StaticArrays", edits=[
                    (JULIA, '''        datamodel["static_arrays_import"] = self._has_static_arrays_import(
            datamodel["components"] + datamodel["datatypes"]
''', '''        datamodel["static_arrays_import"] = self._has_static_arrays_import(
            datamodel["components"] or datamodel["datatypes"]
''')], py=GEN + '''
read, order = gen("""schema_version: 1
components:
  In: {Members: [int i]}
datatypes:
  Aaa:
    Description: d
    Author: a
    Members: ["std::array<int, 3> n // n"]
""", "out", "pkg")
assert "MVector" in read("AaaStruct") and "using StaticArrays" in read("Pkg")
''')


def bug_3():
    return dict(id="c32-self-relation", property="C32", needs="a datatype with a relation to itself",
                breaks="the type parameter of the relation is not declared: the structure cannot be defined", edits=[
                    (JULIA, '''            if not relation.is_builtin:
                params.add(''', '''            if relation.full_type != datatype["class"].full_type:
                params.add(''')], py=GEN + '''
read, order = gen("""schema_version: 1
datatypes:
  Aaa:
    Description: d
    Author: a
    OneToManyRelations: [Aaa more // m]
    OneToOneRelations: [Bbb b // b]
  Bbb:
    Description: d
    Author: a
    Members: [int n // n]
""", "out", "pkg")
head = read("AaaStruct").split("\\n")[0]
for used in set(re.findall(r"\\b(\\w+T)\\b", read("AaaStruct"))):
    assert used in head, (used, head)
''')


def bug_4():
    return dict(id="c32-upstream-name", property="C32", needs="an upstream datamodel included from a folder that is not directly beside or below",
                breaks="the module looks for the upstream module under the name of a folder on the way", edits=[
                    (JULIA, '''options["includeSubfolder"].split("/")[-2].capitalize()''', '''options["includeSubfolder"].strip("./").split("/")[0].capitalize()''')], py=GEN + '''
gen("""schema_version: 1
options: {includeSubfolder: True}
components:
  In: {Members: [int i]}
""", "some/where", "updm")
read, order = gen("""schema_version: 1
components:
  Own: {Members: [In a]}
""", "out", "pkg", "--upstream-edm", "../../some/where/updm:" + W + "/updm.yaml")
inc = re.search(r'include\\("([^"]*updm/\\w+.jl)"\\)', read("Pkg"))
assert inc and os.path.exists(f"{W}/out/pkg/" + inc.group(1)), read("Pkg")
assert "import ..Updm" in read("Pkg") and "Updm.InStruct" in read("OwnStruct"), read("OwnStruct")
''')


def bug_5():
    return dict(id="c32-fixed-in-namespace", property="C32", needs="an array of components in a namespace",
                breaks="the namespace stays in the name of the element type, which is not there in Julia", edits=[
                    (UTILS, '''        if "::" in array_type:
            array_type = array_type.split("::")[1]
''', '''        if array_type.startswith("std::"):
            array_type = array_type[5:]
''')], py=GEN + '''
read, order = gen("""schema_version: 1
components:
  "ns::In": {Members: [int i]}
  Out: {Members: ["std::array<ns::In, 2> a", "std::array<int16_t, 2> b"]}
""", "out", "pkg")
assert "MVector{2, InStruct}" in read("OutStruct") and "MVector{2, Int16}" in read("OutStruct"), read("OutStruct")
''')


def bug_6():
    return dict(id="c32-unsigned-fixed", property="C32", needs="a member of an unsigned integer type of fixed width",
                breaks="the field is signed: large values do not fit", edits=[
                    (UTILS, '''            regex_string = re.split("(u|)int(8|16|32|64)_t", cpp_type)
            cpp_type = regex_string[1].upper() + "Int" + regex_string[2]
            return cpp_type
''', '''            width = re.search("int(8|16|32|64)_t", cpp_type)
            return "Int" + width.group(1)
''')], py=GEN + '''
read, order = gen("""schema_version: 1
components:
  Out: {Members: [uint16_t a, int32_t b, uint64_t c]}
""", "out", "pkg")
assert re.findall(r"(\\w)::(\\w+)", read("OutStruct")) == [("a", "UInt16"), ("b", "Int32"), ("c", "UInt64")], read("OutStruct")
''')


def bug_7():
    return dict(id="c32-interface-many", property="C32", needs="a datatype with an interface among its one to one relations, and none among its one to many relations",
                breaks="the datatype is generated and refers to the interface, which does not exist: it cannot be used", edits=[
                    (JULIA, '''            self._is_in(r.full_type, "interfaces")
            for r in datatype["OneToOneRelations"] + datatype["OneToManyRelations"]
''', '''XX''')], py=GEN)


del bug_7
