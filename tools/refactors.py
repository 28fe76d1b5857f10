"""Whole-function refactorings that keep the behaviour (development self-test; used by no check).
Each: (name, [(file, qualified name of the function replaced or "+Class"/"+" to add a method / module function, source)])."""
import ast, os, textwrap

R = []


def ref(name, *edits):
    R.append((name, list(edits)))


def resolve(edits, repo="/repo"):
    out = []
    for f, q, new in edits:
        s = open(f"{repo}/pyqlaw/{f}").read()
        lines = s.split("\n")
        new = textwrap.dedent(new).strip("\n")
        body = ast.parse(s).body
        if q == "+":                                            # before the first function or class of the module
            n = next(x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef)))
            at = min([n.lineno] + [d.lineno for d in n.decorator_list])
            old = "\n".join(lines[at - 1:n.lineno])
            out.append((f, old, new + "\n\n\n" + old))
            continue
        node, owner = None, body
        for part in q.lstrip("+").split("."):
            node = [x for x in owner if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part][0]
            owner = node.body
        ind = " " * (node.col_offset + (4 if q[0] == "+" else 0))
        if q[0] == "+":                                         # a method after __init__
            init = [x for x in owner if isinstance(x, ast.FunctionDef) and x.name == "__init__"][0]
            old = lines[init.end_lineno - 1]
            old = "\n".join(lines[init.end_lineno - 3:init.end_lineno])
            out.append((f, old, old + "\n\n" + textwrap.indent(new, ind)))
            continue
        at = min([node.lineno] + [d.lineno for d in node.decorator_list])
        old = "\n".join(lines[at - 1:node.end_lineno])
        out.append((f, old, textwrap.indent(new, ind)))
    return out


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactor_list.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactor_list2.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactor_list3.py")).read())
